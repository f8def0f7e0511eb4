From e6603103f7eac935632444ede04905a2c5ee5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 01/59] fix: don't abort when a held login starts a new preuser

hold_pop() freed a hold while it was still in citm->holds, and citm_user_cb()
passed a still-linked server and client to preuser_new(), which aborts the
whole citm in link_list_append().
---
 libcitm/citm.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 4b5b81a..777775f 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -173,6 +173,7 @@ static bool hold_pop(
     if(!elem) return false;
 
     citm_hold_t *hold = CONTAINER_OF(elem, citm_hold_t, elem);
+    hash_elem_remove(&hold->elem);
     link_list_append_list(servers, &hold->servers);
     link_list_append_list(clients, &hold->clients);
     *user = hold->user;
@@ -261,6 +262,8 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
     dstr_t user = {0};
     dstr_t pass = {0};
     keydir_i *kd = NULL;
+    imap_server_t *s = NULL;
+    imap_client_t *c = NULL;
 
     bool ok = hold_pop(
         &citm->holds, constuser, &servers, &clients, &user, &pass
@@ -269,6 +272,10 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
 
     PROP_GO(&e, keydir_new(&citm->root, user, &kd), fail);
 
+    // preuser_new puts the first server and client into its own lists
+    s = CONTAINER_OF(link_list_pop_first(&servers), imap_server_t, link);
+    c = CONTAINER_OF(link_list_pop_first(&clients), imap_client_t, link);
+
     PROP_GO(&e,
         preuser_new(
             citm->scheduler,
@@ -276,18 +283,14 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
             user,
             pass,
             kd,
-            CONTAINER_OF(servers.next, imap_server_t, link),
-            CONTAINER_OF(clients.next, imap_client_t, link),
+            s,
+            c,
             citm_preuser_cb,
             citm,
             &citm->preusers
         ),
     fail);
 
-    // consumed first server and client
-    (void)link_list_pop_first(&servers);
-    (void)link_list_pop_first(&clients);
-
     // get the elem if preuser_new succeeded
     hash_elem_t *elem = hashmap_gets(&citm->preusers, &user);
     if(!elem) LOG_FATAL("unable to find newly created preuser\n");
@@ -309,6 +312,8 @@ fail:
     dstr_free(&user);
     dstr_free0(&pass);
     if(kd) kd->free(kd);
+    citm_close_server(citm, s);
+    citm_close_client(citm, c);
     citm_close_server_list(citm, &servers);
     citm_close_client_list(citm, &clients);
     return;
-- 
2.43.0


From 9a87eada937cd0c66866c85b27f28e0d76ae43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 02/59] fix: answer SEARCH of an empty mailbox

dn_search() sent the untagged SEARCH response but never the tagged one, so the
client waited forever.
---
 libimaildir/dn.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..0314ad5 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -759,18 +759,15 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
-
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
-
     ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+
+    // an empty maildir has nothing to search, but it gets a normal response
+    if(dn->views.size > 0){
+        // figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From 3c4bb5a387ca8ac787eec50ad2111602407724ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 03/59] fix: report the first unseen message on SELECT

send_unseen_resp() walked backwards from the first message, so UNSEEN was only
ever reported when the first message itself was unseen.
---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 0314ad5..2ae7dfe 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -454,7 +454,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
     unsigned int seq = 1;
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &dn->views);
-    for(; node != NULL; seq++, node = jsw_atprev(&trav)){
+    for(; node != NULL; seq++, node = jsw_atnext(&trav)){
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
         if(view->flags.seen) continue;
 
@@ -472,6 +472,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
         CHECK(&e);
 
         link_list_append(out, &resp->link);
+        break;
     }
 
     // if no messages were unseen, don't report anything
-- 
2.43.0


From 598dfa8dfebc9c429489172e847a555e376243c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 04/59] fix: don't raise a new-device alert for the device's
 own key

The own key was never recorded as seen, so the first message decrypted into a
previously synced mailbox announced this very device as a new one.
---
 libcitm/keydir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index 0231cfa..c6e2bf2 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -662,6 +662,11 @@ derr_t keydir_new(
     // no need for keypair_cpy; kd->mykey itself can be in in kd->all_keys
     link_list_append(&kd->all_keys, &kd->mykey->link);
 
+    // our own key is never a new device
+    PROP_GO(&e,
+        fpr_watcher_add_fpr(&kd->fpr_watcher, *kd->mykey->fingerprint),
+    fail);
+
     // populate peers and all_keys
     PROP_GO(&e, for_each_file_in_dir(&kd->key_path, add_peer_key, kd), fail);
 
-- 
2.43.0


From bba56be379e4bfa6a8b2086bb293124b2af73ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 05/59] fix: fail sessions still waiting to sync when an
 imaildir fails

do_fail() skipped the dn_t's which had not synced yet, leaving them with a
pointer to a freed imaildir_t.
---
 libimaildir/imaildir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..950048b 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -221,6 +221,10 @@ static void do_fail(imaildir_t *m){
         up_t *up = CONTAINER_OF(link, up_t, link);
         up_imaildir_failed(up);
     }
+    while((link = link_list_pop_first(&m->predns)) != NULL){
+        dn_t *dn = CONTAINER_OF(link, dn_t, link);
+        dn_imaildir_failed(dn);
+    }
     while((link = link_list_pop_first(&m->dns)) != NULL){
         dn_t *dn = CONTAINER_OF(link, dn_t, link);
         dn_imaildir_failed(dn);
-- 
2.43.0


From c4a15bae3ff79dbcd856d35bb9a24efa24b14fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 06/59] fix: treat an endless metadata line as a corrupt
 message

It filled the decrypter's buffer and surfaced as E_INTERNAL, which fails the
whole mailbox instead of just passing the broken message to the user.
---
 libcrypto/crypto.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index bc4cabf..1257588 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1189,7 +1189,12 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         read += sub.len;
 
         // now push *base64 through the decoder
-        NOFAIL_GO(&e, E_FIXEDSIZE, b642bin_stream(&dc->base64, &dc->buffer), fail);
+        e2 = b642bin_stream(&dc->base64, &dc->buffer);
+        CATCH(&e2, E_FIXEDSIZE){
+            // the buffer only fills up when a metadata line never ends
+            TRACE(&e2, "metadata line too long\n");
+            RETHROW_GO(&e, &e2, E_PARAM, fail);
+        }else PROP_VAR_GO(&e, &e2, fail);
 
         // are we still parsing metadata?
         if(dc->message_started == false){
-- 
2.43.0


From d21ab2d4dbec7af3ca129141b965e20a7e3ce48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 07/59] fix: don't read out of bounds on absurd lengths in
 message metadata

A length of 4294967295 wrapped around to zero in the bounds check.
---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 1257588..23a3c0f 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -977,7 +977,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < hash_len + 1){
+                if(leftover.len <= hash_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1008,7 +1008,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < key_len + 1){
+                if(leftover.len <= key_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1053,7 +1053,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < iv_len + 1){
+                if(leftover.len <= iv_len){
                     // we don't have the whole line
                     return e;
                 }
-- 
2.43.0


From 7370538846bcd8966fe83707bcd3024f90b0b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 08/59] fix: don't abort when a reselect is followed by relays
 or another reselect

---
 libimaildir/up.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bb7c1eb..9978f2a 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -406,11 +406,15 @@ static derr_t reselect_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
     if(!up->detect.inflight) up->detect.chgsince = 0;
     up->detect.repeat = false;
 
+    /* clear the reselect before reporting it; imaildir may respond right away
+       with another reselect or with relays, neither of which is allowed while
+       a reselect is pending */
+    bool examine = up->reselect.examine;
+    up_free_reselect(up);
+
     // non-initial sync complete
     // TODO: wait for a SEARCH RECENT as well, if necessary
-    PROP(&e, imaildir_up_synced(up->m, up, up->reselect.examine) );
-
-    up_free_reselect(up);
+    PROP(&e, imaildir_up_synced(up->m, up, examine) );
 
     return e;
 }
-- 
2.43.0


From 839bb5605fc095c3cc3f4e0d0907d3ad5b96c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 09/59] fix: forget UIDs of the old mailbox when UIDVALIDITY
 changes

---
 libimaildir/imaildir.c | 10 +++++++++-
 libimaildir/log_file.c |  5 ++++-
 libimaildir/up.c       |  6 ++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 950048b..0d3ed8a 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -924,7 +924,6 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
 
     if(old_uidvld_up == uidvld_up) return e;
 
-    // TODO: puke if we have any connections downwards with built views
     /* TODO: on windows, we'll have to ensure that nobody has any files
              open at all, because delete_all_msg_files() would fail */
 
@@ -932,6 +931,14 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
     if(old_uidvld_up){
         LOG_ERROR("detected change in UIDVALIDITY, dropping cache\n");
 
+        /* any connection downwards with a built view would go on to apply the
+           new mailbox's content to a view of the old mailbox; puke instead */
+        if(!link_list_isempty(&m->dns)){
+            ORIG_GO(&e,
+                E_RESPONSE, "UIDVALIDITY changed while mailbox is in use",
+            fail);
+        }
+
         /* first mark the cache as invalid, in case we crash or lose power
            halfway through */
         string_builder_t invalid_path = sb_append(&m->path, SBS(".invalid"));
@@ -939,6 +946,7 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
 
         // close the log
         m->log->close(m->log);
+        m->log = NULL;
 
         // delete the log from the filesystem
         PROP_GO(&e, imaildir_log_rm(&m->path), fail);
diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..9a2e634 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -597,6 +597,9 @@ cu:
 derr_t imaildir_log_rm(const string_builder_t *dirpath){
     derr_t e = E_OK;
     string_builder_t path = sb_append(dirpath, SBS(".cache"));
-    PROP(&e, remove_path(&path) );
+    // the file may already be gone, if we crashed after removing it
+    bool ok;
+    PROP(&e, exists_path(&path, &ok) );
+    if(ok) PROP(&e, remove_path(&path) );
     return e;
 }
diff --git a/libimaildir/up.c b/libimaildir/up.c
index 9978f2a..422caa2 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1199,9 +1199,15 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
                     up->himodseq_up_committed = 0;
+                    /* likewise, forget about downloads and deletions that
+                       we gathered for UIDs from an old UIDVALIDITY */
+                    seq_set_builder_free(&up->fetch.uids_up);
+                    up_free_deletions(up);
                     /* start with a bootstrap fetch and don't commit any
                        himodseq values to the log yet */
                     up->bootstrap.needed = true;
+                    // a reselect should compare to what we have seen by now
+                    up->select.uidvld_up = code->arg.uidvld;
                 }
                 break;
 
-- 
2.43.0


From cf07f091e3d9aff618d63ad60b98288136f59ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 10/59] fix: restart an interrupted bootstrap of a mailbox

---
 libimaildir/up.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 422caa2..bccac04 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1194,6 +1194,17 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                     imaildir_up_check_uidvld_up(up->m, code->arg.uidvld)
                 );
 
+                /* without a himodseq our SELECT couldn't ask for QRESYNC,
+                   such as when the first bootstrap was interrupted */
+                if(
+                    (up->reselect.needed
+                        ? up->reselect.himodseq_up
+                        : up->select.himodseq_up
+                    ) == 0
+                ){
+                    up->bootstrap.needed = true;
+                }
+
                 if(code->arg.uidvld != up->select.uidvld_up){
                     /* invalidate our himodseq seen, which may be from an
                        old UIDVALIDITY */
-- 
2.43.0


From 983fa1d90be4659449e517953c47d8939656d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 11/59] fix: don't report the EXPUNGE of a message that was
 never reported

---
 libimaildir/dn.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 2ae7dfe..3d2794f 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2314,10 +2314,26 @@ static derr_t gather_update_expunge(
     dn_t *dn, gather_t *gather, update_t *update
 ){
     derr_t e = E_OK;
-    (void)dn;
 
     const msg_expunge_t *expunge = update->arg.expunge;
 
+    /* if the message is so new that we have not reported it, there must be no
+       EXPUNGE for it, since the client doesn't have a sequence number for it */
+    jsw_anode_t *node = jsw_aerase(&gather->news, &expunge->uid_dn);
+    if(node){
+        gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        node = jsw_aerase(&gather->metas, &expunge->uid_dn);
+        if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        node = jsw_aerase(&dn->views, &expunge->uid_dn);
+        if(node){
+            msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
+            msg_view_free(&view);
+        }
+        goto cu;
+    }
+
     // remember that this uid is expunged
     gathered_t *gathered;
     PROP_GO(&e, gathered_new(&gathered, expunge->uid_dn), cu);
-- 
2.43.0


From b3a41b35b297ccfa97faf5f3c040c28df0a51029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 12/59] fix: don't modify messages in a mailbox opened with
 EXAMINE

---
 libimaildir/dn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 3d2794f..889f367 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1543,9 +1543,10 @@ static derr_t fetch_begin(
         return e;
     }
 
-    /* some FETCH commands can't cause any \Seen flags to get set, while
-       other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+    /* some FETCH commands can't cause any \Seen flags to get set (none can, in
+       a read-only mailbox), while other FETCH commands don't happen to affect
+       any unseen messages */
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
@@ -2066,7 +2067,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // a CLOSE of a read-only mailbox removes no messages and raises no error
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From cdc5f3de9cb5a66d59b64e599bae904e0514c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 13/59] fix: don't reuse uids when recovering a message file
 after a crash

---
 libimaildir/imaildir.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 0d3ed8a..884f4c9 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -499,14 +499,8 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
-    // detect all of the uid_dn's and uid_local's
+    /* detect all of the uid_dn's and uid_local's; this must come before reading
+       the files, which may assign new uid_dn's */
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
     for(; node != NULL; node = jsw_atnext(&trav)){
@@ -522,6 +516,13 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From 14db6975f4f67c56d948772dac230aa335330b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 14/59] fix: don't lose the INTERNALDATE when a crash
 interrupts a download

---
 libimaildir/imaildir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 884f4c9..c32acc8 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1258,6 +1258,9 @@ static derr_t _imaildir_up_handle_static_fetch_attr(
         msg->state = MSG_NOT4ME;
         PROP(&e, m->log->update_msg(m->log, msg) );
     }else{
+        /* make sure the internaldate is in the log before the file is in place;
+           if we crash in between, loading will consider the message FILLED */
+        PROP(&e, m->log->update_msg(m->log, msg) );
         // keep the file contents
         PROP(&e, handle_new_msg_file(m, &tmp_path, msg, len) );
         // complete the message and persist its state
-- 
2.43.0


From 4c58ecc82c201ae8a9b8093ed30961cefc11efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 15/59] fix: keep the flags of messages for other devices
 current

STATUS subtracts them from what the server reports as unseen.
---
 libimaildir/up.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bccac04..5e4b9b1 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -462,10 +462,7 @@ derr_t up_fetch_resp(up_t *up, const ie_fetch_resp_t *fetch, link_t *out){
         return e;
     }
 
-    if(msg && msg->state == MSG_NOT4ME){
-        LOG_INFO("detected fetch for NOT4ME UID, skipping\n");
-        return e;
-    }
+    bool not4me = msg && msg->state == MSG_NOT4ME;
 
     if(!msg){
         // new UID
@@ -488,7 +485,9 @@ derr_t up_fetch_resp(up_t *up, const ie_fetch_resp_t *fetch, link_t *out){
         PROP(&e, imaildir_up_update_flags(up->m, msg, flags) );
     }
 
-    if(fetch->extras){
+    if(fetch->extras && not4me){
+        LOG_INFO("detected content of NOT4ME UID, skipping\n");
+    }else if(fetch->extras){
         PROP(&e, imaildir_up_handle_static_fetch_attr(up->m, msg, fetch) );
     }
 
-- 
2.43.0


From 988e894ede96f30d811138cd98a9976bbd730b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 16/59] fix: accept a COPY of which nothing was left to copy

The server sends no COPYUID when all messages were expunged already.
---
 libimaildir/imaildir.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index c32acc8..e83f57b 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2022,9 +2022,14 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
         return e;
     }
 
-    // ensure that we have a COPYUID in the st_resp
+    imaildir_t *hold_m;
+
+    /* there is no COPYUID when no messages were copied, which happens when they
+       were all expunged before the server saw our COPY (rfc 4315) */
     if(!st_resp->code){
-        ORIG(&e, E_RESPONSE, "expected COPYUID in st_resp but got nothing");
+        dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+        PROP_GO(&e, local_copy(m, relay->locals, hold_m), cu);
+        goto cu;
     }
     if(st_resp->code->type != IE_ST_CODE_COPYUID){
         TRACE(&e, "expected COPYUID in status response (%x) but got %x\n",
@@ -2036,7 +2041,6 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     const ie_seq_set_t *src_uids_up = st_resp->code->arg.copyuid.uids_in;
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
-    imaildir_t *hold_m;
     dirmgr_hold_get_imaildir(relay->hold, &hold_m);
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
-- 
2.43.0


From 0e3f4e3534b0b47fe219f285adfacc9d81f1c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 17/59] fix: don't abort when a client disconnects while its
 session is torn down

A write was attempted on a stream that had been awaited already.
---
 libcitm/imap_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/imap_server.c b/libcitm/imap_server.c
index d42712e..6d2cbd6 100644
--- a/libcitm/imap_server.c
+++ b/libcitm/imap_server.c
@@ -377,6 +377,9 @@ static void advance_state(imap_server_t *s){
 
     if(is_error(s->e) || s->canceled) goto cu;
 
+    // if the client is already gone, there's no one to say goodbye to
+    if((s->logged_out || s->broken_conn) && s->stream->awaited) goto cu;
+
     // LOGOUT codepath
     if(s->logged_out){
         // wait for our response to be written
-- 
2.43.0


From e6ff728c1677da1b4e6b68e58e1a0532c9a72312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 18/59] fix: sync copied message files before relying on them

After a power loss a copied message stayed truncated forever.
---
 libdstr/fileops.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 8105ec6..71b1179 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -1105,6 +1105,9 @@ derr_t file_copy(const char* from, const char* to, mode_t mode){
         PROP_GO(&e, dstr_write(fdout, &buffer), cu_fdout);
     }
 
+    // don't let the caller rely on a copy which might not survive a crash
+    PROP_GO(&e, dfsync(fdout), cu_fdout);
+
 cu_fdout:
     compat_close(fdout);
 cu_fdin:
-- 
2.43.0


From 30e0392c12b1574ac3005f8e7527e8c37c380e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 19/59] fix: handle failure to open the destination of a COPY

---
 libimaildir/imaildir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index e83f57b..b35495b 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2027,7 +2027,7 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     /* there is no COPYUID when no messages were copied, which happens when they
        were all expunged before the server saw our COPY (rfc 4315) */
     if(!st_resp->code){
-        dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+        PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
         PROP_GO(&e, local_copy(m, relay->locals, hold_m), cu);
         goto cu;
     }
@@ -2041,7 +2041,7 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     const ie_seq_set_t *src_uids_up = st_resp->code->arg.copyuid.uids_in;
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
-    dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+    PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
         LOG_WARN("detected COPY with mismatched UIDVALIDITY\n");
-- 
2.43.0


From ae2c9d291444e9d51cf7f774f4fe3d922c589352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:49 +0000
Subject: [PATCH 20/59] fix: keep track of relays sent after a sync

---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index b35495b..fab62f1 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1373,7 +1373,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
     imap_cmd_t *cmd = NULL;
     link_t *link;
     while((link = link_list_pop_first(&m->relays_unsent))){
-        link_list_append_list(&m->relays_sent, link);
+        link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
         cmd = imap_cmd_copy(&e, relay->cmd);
-- 
2.43.0


From 074b246d825039eb08f293130052a01d9e6bb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 21/59] fix: don't hold a mailbox for a COPY which still waits
 for a sync

---
 libimaildir/imaildir.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index fab62f1..1698f0f 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -700,6 +700,20 @@ void imaildir_free(imaildir_t *m){
     }
 }
 
+/* Take a dirmgr_hold_t on the target of a COPY.  The hold only lasts while the
+   relay is in flight; if we held the target before then, possibly we would
+   prevent the downloads of the very sync that the relay is waiting for. */
+static derr_t relay_hold(imaildir_t *m, relay_t *relay){
+    derr_t e = E_OK;
+
+    if(relay->cmd->type != IMAP_CMD_COPY || relay->hold) return e;
+
+    const dstr_t *name = ie_mailbox_name(relay->cmd->arg.copy->m);
+    PROP(&e, m->cb->dirmgr_hold_new(m->cb, name, &relay->hold) );
+
+    return e;
+}
+
 // consumes or frees the relay_t
 static derr_t maybe_send_relay(imaildir_t *m, relay_t *relay){
     derr_t e = E_OK;
@@ -728,6 +742,8 @@ static derr_t maybe_send_relay(imaildir_t *m, relay_t *relay){
         );
     }
 
+    PROP_GO(&e, relay_hold(m, relay), fail);
+
     cmd_copy = imap_cmd_copy(&e, relay->cmd);
     CHECK_GO(&e, fail);
 
@@ -805,7 +821,11 @@ static size_t eject_up(imaildir_t *m, up_t *up){
             link_remove(&relay->link);
             relay_free(relay);
         }
-        // all remaining relays go to unsent
+        // all remaining relays go to unsent, so they can't hold anything
+        LINK_FOR_EACH(relay, &m->relays_sent, relay_t, link){
+            dirmgr_hold_free(relay->hold);
+            relay->hold = NULL;
+        }
         link_list_prepend_list(&m->relays_unsent, &m->relays_sent);
     }
 
@@ -1376,6 +1396,8 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
         link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
+        PROP_GO(&e, relay_hold(m, relay), fail);
+
         cmd = imap_cmd_copy(&e, relay->cmd);
         CHECK_GO(&e, fail);
 
@@ -2182,13 +2204,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     relay_t *relay = relay_new(&e, m, cmd, requester);
     CHECK(&e);
 
-    // take a dirmgr_hold_t on the mailbox in question
-    PROP_GO(&e,
-        m->cb->dirmgr_hold_new(
-            m->cb, ie_mailbox_name(arg.copy->m), &relay->hold
-        ),
-    fail_relay);
-
     // steal the local keys we need to copy after the relay command finishes
     relay->locals = STEAL(msg_key_list_t, &req->val.msg_copy->keys);
 
@@ -2198,10 +2213,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     PROP(&e, maybe_send_relay(m, relay) );
 
     return e;
-
-fail_relay:
-    relay_free(relay);
-    return e;
 }
 
 
-- 
2.43.0


From 6800063f6fc87ada0e02d222b42b8c0fcbc528b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 22/59] fix: don't ignore failures to remember that a mailbox
 was synced

---
 libcitm/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 23edd8f..3ce83f2 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -352,7 +352,7 @@ static derr_t advance_select(
         // did we sync a mailbox successfully?
         if(success){
             const dstr_t *mailbox_name = ie_mailbox_name(sc->selected_mailbox);
-            sc->kd->mailbox_synced(sc->kd, *mailbox_name);
+            PROP(&e, sc->kd->mailbox_synced(sc->kd, *mailbox_name) );
         }
     }
 
-- 
2.43.0


From 06a3476db615849cd215255815c36ac490df6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 23/59] fix: close the clients of a canceled hold

---
 libcitm/citm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 777775f..c0ec165 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -157,7 +157,7 @@ static void hold_cancel(citm_t *citm, hash_elem_t *elem){
     dstr_free(&hold->user);
     dstr_free0(&hold->pass);
     citm_close_server_list(citm, &hold->servers);
-    citm_close_client_list(citm, &hold->servers);
+    citm_close_client_list(citm, &hold->clients);
     free(hold);
 }
 
-- 
2.43.0


From f9b8c53fda16247f70a9ed09f4c02c0a3643fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 24/59] fix: don't touch a failed imaildir's messages after it
 is freed

The updates gathered by an interrupted FETCH may hold the last reference to an
expunged message, so they must be freed when the imaildir fails, not when the
dn_t is freed.
---
 libimaildir/dn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 889f367..5b6b991 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -313,6 +313,9 @@ static void dn_free_views(dn_t *dn){
         update_free(&update);
     }
 
+    // an interrupted FETCH might still have updates which it gathered
+    gather_free(&dn->fetch.gather);
+
     // we're not an accessor of the imaildir anymore
     dn->m = NULL;
     link_remove(&dn->link);
-- 
2.43.0


From f93c97e09eb36de77a09e147e04ec4d2e2af1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 25/59] fix: don't keep an appended message which was already
 expunged

If the server reports that a message vanished before it answers the APPEND or
COPY that created it, remember that, so the message isn't added afterwards.
---
 libimaildir/imaildir.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 1698f0f..caa3252 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1434,14 +1434,16 @@ static derr_t delete_msg(imaildir_t *m, msg_key_t key){
 
     if(!expunge && !msg){
         /* ignore deletions for messages we never had in the first place, which
-           is especially common for VANISHED responses during initial syncs */
-        return e;
+           is especially common for VANISHED responses during initial syncs...
+           unless there is a hold, as it may be for a message which is about to
+           be given to imaildir_add_local_file() */
+        if(!key.uid_up || m->cb->allow_download(m->cb, m)) return e;
     }
 
     // we should end with an expunge in the EXPUNGED_PUSHED state
     if(!expunge){
         msg_expunge_state_e state = MSG_EXPUNGE_PUSHED;
-        unsigned int uid_dn = msg->uid_dn;
+        unsigned int uid_dn = msg ? msg->uid_dn : 0;
         uint64_t modseq = uid_dn ? next_himodseq_dn(m) : 0;
         PROP(&e, msg_expunge_new(&expunge, key, uid_dn, state, modseq) );
         // always insert into expunged
@@ -2363,6 +2365,13 @@ derr_t imaildir_add_local_file(
        case the existing flags are newer than the ones we set in APPEND */
     jsw_anode_t *node = jsw_afind(&m->msgs, &key, NULL);
     msg_t *msg = CONTAINER_OF(node, msg_t, node);
+    if(!msg && jsw_afind(&m->expunged, &key, NULL)){
+        /* the up_t has already received an expunge for this message, before we
+           even ended the hold */
+        if(uid_dn_out != NULL) *uid_dn_out = 0;
+        PROP(&e, remove_path(path) );
+        return e;
+    }
     if(msg){
         /* we are guaranteed the message is not filled since up_t can't
            download message contents during a hold, so uid_dn and msg->modseq
-- 
2.43.0


From 2eaf584a6a265a96867f0688a5bf866f0f163cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 26/59] fix: don't keep an added message in memory if logging
 it failed

Otherwise a later FETCH response for it isn't logged either, because it is
already known, but its MODSEQ is, and after a crash it is never downloaded.
---
 libimaildir/imaildir.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index caa3252..0b2f41d 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2365,6 +2365,7 @@ derr_t imaildir_add_local_file(
        case the existing flags are newer than the ones we set in APPEND */
     jsw_anode_t *node = jsw_afind(&m->msgs, &key, NULL);
     msg_t *msg = CONTAINER_OF(node, msg_t, node);
+    bool is_new = false;
     if(!msg && jsw_afind(&m->expunged, &key, NULL)){
         /* the up_t has already received an expunge for this message, before we
            even ended the hold */
@@ -2392,14 +2393,17 @@ derr_t imaildir_add_local_file(
         PROP_GO(&e,
             msg_new(&msg, key, uid_dn, state, intdate, flags, modseq),
         fail_path);
-
-        jsw_ainsert(&m->msgs, &msg->node);
+        is_new = true;
     }
 
     /* make sure metadata is in place in case we crash (non-uid_local messages
        recover the contents later, but we'll have the metadata right */
     // TODO: rewrite the loading logic to get rid of this weird extra update
-    PROP_GO(&e, m->log->update_msg(m->log, msg), fail_path);
+    PROP_GO(&e, m->log->update_msg(m->log, msg), fail_msg);
+
+    /* only insert the message after logging it, so we never remember messages
+       which we would forget in a crash */
+    if(is_new) jsw_ainsert(&m->msgs, &msg->node);
 
     /* TODO: throw an E_IMAILDIR here, since this message would not be detected
        as needing to be downloaded by the up_t, and I'd rather shut down this
@@ -2427,6 +2431,8 @@ derr_t imaildir_add_local_file(
 
     return e;
 
+fail_msg:
+    if(is_new) msg_free(&msg);
 fail_path:
     DROP_CMD( remove_path(path) );
     return e;
-- 
2.43.0


From 9c701a6c093f21b8081493363b56d22e69a093c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 27/59] fix: don't abort when a LOGOUT precedes the response to
 ENABLE

---
 libcitm/sc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 3ce83f2..9d7333c 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -235,6 +235,8 @@ static void cread_cb(
 // returns bool ok
 static bool advance_reads_up(sc_t *sc){
     if(sc->resp) return true;
+    // a LOGOUT may cancel our client before the ENABLE response arrives
+    if(sc->c->canceled) return false;
     ONCE(sc->reading_up){
         imap_client_must_read(sc->c, &sc->cread, cread_cb);
     }
-- 
2.43.0


From a12ba702a04b24f315ebc73b4cae57026d6e516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 28/59] fix: keep reading from the server while logging out

A LOGOUT arriving while the up_t still waits for a response (ENABLE or an
unselect) never finished: logging out flushed writes but never read the
response it was waiting for.
---
 libcitm/sc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 9d7333c..ed80d64 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -1269,6 +1269,8 @@ logout:
     PROP_GO(&sc->e, advance_logout(sc, &ok), fail);
     up_ok = advance_writes_up(sc);
     dn_ok = advance_writes_dn(sc);
+    // the up_t may be waiting for a response
+    if(!ok) (void)advance_reads_up(sc);
     // wait for logout logic and all writes to complete
     if(!ok || !up_ok || !dn_ok) return;
     goto graceful_shutdown;
-- 
2.43.0


From dfb17ae1625edadae0861e9b50ec14bd4583b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 29/59] fix: survive a failure to compact the log

A failed compaction left the log closed, so that the next update dereferenced
a NULL FILE*, and it failed an update which was already in the log.
---
 libimaildir/log_file.c | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index 9a2e634..1d80a14 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -25,7 +25,7 @@ typedef struct {
 } log_t;
 DEF_CONTAINER_OF(log_t, iface, maildir_log_i)
 
-static derr_t maybe_compact(log_t *log){
+static derr_t try_compact(log_t *log){
     /* read every line into a hashmap, preferring the latest one, rewrite only
        unique lines into a new file, then rename the file into place */
     FILE *f = NULL;
@@ -152,6 +152,30 @@ cu:
     return e;
 }
 
+static void maybe_compact(log_t *log){
+    derr_t e = E_OK;
+
+    /* whatever we were called after is already in the log, so there's nothing
+       to fail if the old log stays in place a little longer */
+    IF_PROP(&e, try_compact(log)){
+        TRACE(&e, "failed to compact logfile, will try again\n");
+        DUMP(e);
+        DROP_VAR(&e);
+    }
+}
+
+// a failed compaction leaves the log closed
+static derr_t need_file(log_t *log){
+    derr_t e = E_OK;
+
+    if(log->f) return e;
+
+    string_builder_t path = sb_append(log->dirpath, SBS(".cache"));
+    PROP(&e, dfopen_path(&path, "a", &log->f) );
+
+    return e;
+}
+
 static unsigned int get_uidvld_up(maildir_log_i *iface){
     log_t *log = CONTAINER_OF(iface, log_t, iface);
     return log->uidvld_up;
@@ -179,13 +203,14 @@ static derr_t set_uidvlds(
     PROP(&e, FMT(&buf, "|%x:%x\n", FU(uidvld_up), FU(uidvld_dn)) );
 
     // write a line
+    PROP(&e, need_file(log) );
     PROP(&e, dstr_fwrite(log->f, &buf) );
     PROP(&e, dffsync(log->f) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
     log->updates++;
-    PROP(&e, maybe_compact(log) );
+    maybe_compact(log);
 
     return e;
 }
@@ -210,13 +235,14 @@ static derr_t set_himodseq_up(maildir_log_i *iface, uint64_t himodseq_up){
     PROP(&e, FMT(&buf, "|%x\n", FU(himodseq_up)) );
 
     // write a line
+    PROP(&e, need_file(log) );
     PROP(&e, dstr_fwrite(log->f, &buf) );
     PROP(&e, dffsync(log->f) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
     log->updates++;
-    PROP(&e, maybe_compact(log) );
+    maybe_compact(log);
 
     return e;
 }
@@ -232,13 +258,14 @@ static derr_t set_explicit_modseq_dn(maildir_log_i *iface, uint64_t modseq_dn){
     PROP(&e, FMT(&buf, "|%x\n", FU(modseq_dn)) );
 
     // write a line
+    PROP(&e, need_file(log) );
     PROP(&e, dstr_fwrite(log->f, &buf) );
     PROP(&e, dffsync(log->f) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
     log->updates++;
-    PROP(&e, maybe_compact(log) );
+    maybe_compact(log);
 
     return e;
 }
@@ -260,13 +287,14 @@ static derr_t update_msg(maildir_log_i *iface, const msg_t *msg){
     PROP(&e, dstr_append(&buf, &DSTR_LIT("\n")) );
 
     // write a line
+    PROP(&e, need_file(log) );
     PROP(&e, dstr_fwrite(log->f, &buf) );
     PROP(&e, dffsync(log->f) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
     log->updates++;
-    PROP(&e, maybe_compact(log) );
+    maybe_compact(log);
 
     return e;
 }
@@ -288,13 +316,14 @@ static derr_t update_expunge(maildir_log_i *iface, const msg_expunge_t *expunge)
     PROP(&e, dstr_append(&buf, &DSTR_LIT("\n")) );
 
     // write a line
+    PROP(&e, need_file(log) );
     PROP(&e, dstr_fwrite(log->f, &buf) );
     PROP(&e, dffsync(log->f) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
     log->updates++;
-    PROP(&e, maybe_compact(log) );
+    maybe_compact(log);
 
     return e;
 }
-- 
2.43.0


From 8425f57c66f2c9a2dc749e6f32e8eb2ca45ebdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 30/59] fix: fail an imaildir to which a file could not be
 added

If adding a file fails after its uid was assigned, that uid is shown to
clients but is not in the log, so it's assigned again later.  Also don't leak
an imaildir opened just for adding a file.
---
 libcitm/sc.c           | 12 +++++++++---
 libimaildir/dirmgr.c   | 11 +++++++++++
 libimaildir/dirmgr.h   |  5 +++++
 libimaildir/imaildir.c |  7 +++++--
 libimaildir/imaildir.h |  4 ++++
 5 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index ed80d64..0cddedd 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -750,7 +750,7 @@ static derr_t check_append(
         }else{
             // add the temp file to the maildir
             void *up_noresync = &sc->up;
-            PROP(&e,
+            PROP_GO(&e,
                 imaildir_add_local_file(
                     m,
                     &path,
@@ -760,8 +760,8 @@ static derr_t check_append(
                     sc->append_flags,
                     up_noresync,
                     NULL
-                )
-            );
+                ),
+            fail_m);
         }
     }else{
         // APPEND failed, delete the temp file
@@ -779,6 +779,12 @@ static derr_t check_append(
     PROP(&e, send_passthru_st_resp(sc, cmdtagp, st->status, respp) );
 
     return e;
+
+fail_m:
+    /* the imaildir may remember more about the message than its log does; treat
+       it as a consistency failure, like failures to accept updates */
+    dirmgr_hold_fail_imaildir(sc->append_hold, &m, e);
+    return e;
 }
 
 static derr_t require_selected(
diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 38f2b3a..7893730 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -650,6 +650,17 @@ fail:
 }
 
 
+void dirmgr_hold_fail_imaildir(
+    dirmgr_hold_t *hold, imaildir_t **m, const derr_t e
+){
+    if(*m && !hold->close_on_release){
+        // this may free the imaildir
+        imaildir_maybe_fail(*m, e);
+        *m = NULL;
+    }
+    dirmgr_hold_release_imaildir(hold, m);
+}
+
 void dirmgr_hold_release_imaildir(dirmgr_hold_t *hold, imaildir_t **m){
     if(*m == NULL) return;
     if(hold->close_on_release){
diff --git a/libimaildir/dirmgr.h b/libimaildir/dirmgr.h
index 838160d..7f47854 100644
--- a/libimaildir/dirmgr.h
+++ b/libimaildir/dirmgr.h
@@ -129,6 +129,11 @@ derr_t dirmgr_hold_get_imaildir(dirmgr_hold_t *hold, imaildir_t **out);
 
 void dirmgr_hold_release_imaildir(dirmgr_hold_t *hold, imaildir_t **m);
 
+// like dirmgr_hold_release_imaildir, for when an error occured while using it
+void dirmgr_hold_fail_imaildir(
+    dirmgr_hold_t *hold, imaildir_t **m, const derr_t e
+);
+
 
 // like a hold, but with a freeze you can't even connect to a mailbox
 struct dirmgr_freeze_t;
diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 0b2f41d..3836384 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -21,7 +21,6 @@ static derr_t distribute_update_expunge(imaildir_t *m,
         const msg_expunge_t *expunge, msg_t *msg);
 static void finalize_msg(imaildir_t *m, msg_t *msg);
 static void remove_and_delete_msg(imaildir_t *m, msg_t *msg);
-static void imaildir_maybe_fail(imaildir_t *m, const derr_t e);
 
 struct relay_t;
 typedef struct relay_t relay_t;
@@ -234,7 +233,7 @@ static void do_fail(imaildir_t *m){
 /* imaildir_maybe_fail detects errors and broadcasts to all accessors.  Each
    accessor is responsible for not using the imaildir again and letting its
    owner know the failure occured. */
-static void imaildir_maybe_fail(imaildir_t *m, const derr_t e){
+void imaildir_maybe_fail(imaildir_t *m, const derr_t e){
     if(!is_error(e)) return;
     do_fail(m);
     // this was unexpected, tell the dirmgr so it can clean us up
@@ -2094,6 +2093,10 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     PROP_GO(&e, local_copy(m, relay->locals, hold_m), cu);
 
 cu:
+    // if hold_m is m, our caller will take care of it
+    if(is_error(e) && hold_m != m){
+        dirmgr_hold_fail_imaildir(relay->hold, &hold_m, e);
+    }
     dirmgr_hold_release_imaildir(relay->hold, &hold_m);
 
     return e;
diff --git a/libimaildir/imaildir.h b/libimaildir/imaildir.h
index d4c780c..a7fc2d6 100644
--- a/libimaildir/imaildir.h
+++ b/libimaildir/imaildir.h
@@ -187,6 +187,10 @@ void imaildir_free(imaildir_t *m);
 // imaildir may be immediately freed afterwards
 void imaildir_forceclose(imaildir_t *m);
 
+// close an imaildir if there was an error which left it inconsistent
+// imaildir may be immediately freed afterwards
+void imaildir_maybe_fail(imaildir_t *m, const derr_t e);
+
 // regsiter a new connection with the imaildir, and return a maildir_i
 void imaildir_register_up(imaildir_t *m, up_t *up);
 
-- 
2.43.0


From 658e3ea981cede05798f8ef07078fe5c1ec4e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:58 +0000
Subject: [PATCH 31/59] fix: hold the lock after duv_pipe_bind_with_lock
 succeeds

On success the function fell through to its failure path: it released the
lock, closed the lock's file descriptor twice, and never set *out.  So a
second instance could unlink and take over a running instance's socket, and
the second close could hit an unrelated file descriptor.
---
 libduv/util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libduv/util.c b/libduv/util.c
index f91bc7a..943a694 100644
--- a/libduv/util.c
+++ b/libduv/util.c
@@ -389,8 +389,16 @@ derr_t duv_pipe_bind_with_lock(
     // now bind
     PROP_GO(&e, duv_pipe_bind_path(pipe, sock), fail_lock);
 
+    // the caller holds the lock until it calls duv_unlock_fd()
+    *out = fd;
+
+    return e;
+
 fail_lock:
+    // unlocks and closes
     duv_unlock_fd(fd);
+    return e;
+
 fail_fd:
     close(fd);
     return e;
-- 
2.43.0


From 3eee80907183f2a787c98dd7f0898c2d4e2a7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:58 +0000
Subject: [PATCH 32/59] fix: don't use a returned membuf when reporting a
 failed send

g_membuf_return() nulls the pointer, so logging EDESTADDRREQ or ENOKEY, the
errors which must not bring the service down, crashed the dns server.
---
 server/dns/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/dns/main.c b/server/dns/main.c
index d9ced4c..ae34c34 100644
--- a/server/dns/main.c
+++ b/server/dns/main.c
@@ -109,6 +109,8 @@ static void on_send(uv_udp_send_t *req, int status){
     globals_t *g = req->handle->data;
 
     membuf_t *membuf = CONTAINER_OF(req, membuf_t, req);
+    // the destination is needed after the membuf is returned
+    struct sockaddr_storage ss = membuf->ss;
     g_membuf_return(g, &membuf);
 
     if(status == 0 || status == UV_ECANCELED) return;
@@ -119,13 +121,13 @@ static void on_send(uv_udp_send_t *req, int status){
        destination to uv_udp_send(), we can treat this error in the wireguard
        layer as if it were silently dropped by the network. */
     if(status == UV_EDESTADDRREQ){
-        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
     // similarly, don't crash the service if one wg endpoint is misconfigured
     if(status == -ENOKEY){
-        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
-- 
2.43.0


From 6fc876b9a558e91b6d454e3c8a9970901b28991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:14 +0000
Subject: [PATCH 33/59] fix: keep sending to a peer after a tolerated send
 error

After EDESTADDRREQ or ENOKEY the send callback returned without ending the
write, so the sender stayed inwrite forever and never talked to that peer
again, even after the endpoint was repaired.  Treat the packet as lost.
---
 server/kvpsend/main.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 102f45e..9e233b4 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -423,15 +423,17 @@ static void uv_sender_send_cb(uv_udp_send_t *req, int status){
            the whole service if one endpoint is misconfigured or offline */
         if(status == UV_EDESTADDRREQ){
             LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOP(sender->addr));
-            return;
-        }
-        if(status == -ENOKEY){
+        }else if(status == -ENOKEY){
             LOG_ERROR("ENOKEY: dst=%x\n", FNTOP(sender->addr));
-            return;
+        }else{
+            ORIG_GO(&e,
+                uv_err_type(status),
+                "uv_sender_send_cb: %x",
+                fail,
+                FUV(status)
+            );
         }
-        ORIG_GO(&e,
-            uv_err_type(status), "uv_sender_send_cb: %x", fail, FUV(status)
-        );
+        // proceed as if the packet had been lost by the network
     }
 
     PROP_GO(&e, sender_send_cb(&uv_k->k, sender, ktime(uv_k)), fail);
-- 
2.43.0


From 8474017a93fd34ea04c966bdfb644f73fdd72005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:14 +0000
Subject: [PATCH 34/59] fix: don't abort kvpsend when a subscriber's request is
 too long

A subscriber which filled its read buffer without sending a newline hit
LOG_FATAL in the alloc callback and took down the service.  Close only that
subscriber.
---
 server/kvpsend/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 9e233b4..9efcdda 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -186,6 +186,9 @@ static void uv_subscriber_read_cb(
     size_t rcap = sizeof(uv_sub->rbuf);
     if(uv_sub->rlen > rcap) LOG_FATAL("read too much from subscriber\n");
     if(uv_sub->rbuf[uv_sub->rlen-1] != '\n'){
+        if(uv_sub->rlen == rcap){
+            ORIG_GO(&e, E_PARAM, "subscriber request is too long\n", fail);
+        }
         // keep reading
         return;
     }
-- 
2.43.0


From ecb5faacaa11271019db5099b7b61512fafc5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 35/59] fix: close kvpsend's subscribers before its timers

uv_kvpsend_close() closed the timeout timer first, but closing subscribers
reconfigures that timer, so an error with subscribers waiting aborted the
process instead of shutting it down.
---
 server/kvpsend/main.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 9efcdda..cbd8304 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -63,13 +63,7 @@ static void uv_kvpsend_close(uv_kvpsend_t *uv_k, derr_t e){
     }
     uv_k->closing = true;
     uv_k->close_reason = e;
-    duv_udp_close(&uv_k->sync_udp, noop_close_cb);
-    duv_pipe_close(&uv_k->listener, noop_close_cb);
-    duv_timer_close(&uv_k->scan_timer, noop_close_cb);
-    duv_timer_close(&uv_k->timeout_timer, noop_close_cb);
-    for(size_t i = 0; i < uv_k->k.nsenders; i++){
-        duv_timer_close(&uv_k->sender_timers[i], noop_close_cb);
-    }
+    // closing subscribers configures the timeout_timer; do that first
     kvpsend_t *k = &uv_k->k;
     jsw_atrav_t trav;
     entry_t *entry = entry_first(&trav, &k->sorted);
@@ -78,6 +72,13 @@ static void uv_kvpsend_close(uv_kvpsend_t *uv_k, derr_t e){
         delete_entry(k, entry, false);
         entry = next;
     }
+    duv_udp_close(&uv_k->sync_udp, noop_close_cb);
+    duv_pipe_close(&uv_k->listener, noop_close_cb);
+    duv_timer_close(&uv_k->scan_timer, noop_close_cb);
+    duv_timer_close(&uv_k->timeout_timer, noop_close_cb);
+    for(size_t i = 0; i < uv_k->k.nsenders; i++){
+        duv_timer_close(&uv_k->sender_timers[i], noop_close_cb);
+    }
 }
 
 static void on_subscriber_closed(uv_handle_t *handle){
-- 
2.43.0


From 4f03b5cf48d962945785a73586ae0f02129186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 36/59] fix: close subscribers still being read when kvpsend
 shuts down

After an application failure, a subscriber whose request hadn't been fully
read was never closed: its read callback ignores everything while closing,
including EOF.  So the event loop never ended, and a failed kvpsend neither
served anybody nor exited to be restarted.
---
 server/kvpsend/main.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index cbd8304..49c36e9 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -21,6 +21,8 @@ typedef struct {
     derr_t close_reason;
     bool closing;
     MYSQL *sql;
+    // subscribers whose request we haven't finished reading
+    link_t reading;  // uv_subscriber_t->link
     // remember the time we set in the loop
     xtime_t now;
 } uv_kvpsend_t;
@@ -44,8 +46,12 @@ typedef struct {
     // expect to write one char, or a healthcheck response
     char wbuf[128];
     uv_write_t req;
+    link_t link;  // uv_kvpsend_t->reading
 } uv_subscriber_t;
 DEF_CONTAINER_OF(uv_subscriber_t, sub, subscriber_t)
+DEF_CONTAINER_OF(uv_subscriber_t, link, link_t)
+
+static void uv_subscriber_close(uv_subscriber_t *uv_sub);
 
 static void noop_close_cb(uv_handle_t *handle){
     (void)handle;
@@ -72,6 +78,11 @@ static void uv_kvpsend_close(uv_kvpsend_t *uv_k, derr_t e){
         delete_entry(k, entry, false);
         entry = next;
     }
+    // nobody else would close these
+    link_t *link;
+    while((link = link_list_pop_first(&uv_k->reading))){
+        uv_subscriber_close(CONTAINER_OF(link, uv_subscriber_t, link));
+    }
     duv_udp_close(&uv_k->sync_udp, noop_close_cb);
     duv_pipe_close(&uv_k->listener, noop_close_cb);
     duv_timer_close(&uv_k->scan_timer, noop_close_cb);
@@ -87,6 +98,7 @@ static void on_subscriber_closed(uv_handle_t *handle){
 }
 
 static void uv_subscriber_close(uv_subscriber_t *uv_sub){
+    link_remove(&uv_sub->link);
     duv_pipe_close(&uv_sub->pipe, on_subscriber_closed);
 }
 
@@ -195,6 +207,7 @@ static void uv_subscriber_read_cb(
     }
     // done reading
     duv_pipe_read_stop(&uv_sub->pipe);
+    link_remove(&uv_sub->link);
 
     // handle what was sent
     dstr_t rbuf = dstr_from_cstrn(uv_sub->rbuf, uv_sub->rlen, false);
@@ -263,6 +276,8 @@ static void uv_listener_connect_cb(uv_stream_t *listener, int status){
         goto app_fail;
     }
 
+    link_list_append(&uv_k->reading, &uv_sub->link);
+
     // failures here just close the connection, not the application
 
     // start reading from this connection
-- 
2.43.0


From 3dbab85003df088f004e82dab0b5a30e5358a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:08 +0000
Subject: [PATCH 37/59] fix: keep kvpsync tombstones for 255 seconds, not
 nanoseconds

xtime_t counts nanoseconds, so deletions were forgotten with the next packet
or query, and a duplicate of the insertion arriving late brought the deleted
key back until the next resync.
---
 server/libkvpsync/recv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index dce1fe2..33d663e 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -3,7 +3,7 @@
    leaving deletions in the data structure for a few minutes to ensure that no
    stray network packet could be still circulating.  We use the IPv4 max TTL
    even though in practice that's a lot longer than a real packet can live. */
-#define GC_DELAY 255
+#define GC_DELAY (255*SECOND)
 
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
-- 
2.43.0


From 7e6af01569ae32bd0676767270774b14d9353928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 38/59] fix: ignore kvpsync FLUSH packets of superseded syncs

PROTOCOL requires a receiver to ignore a FLUSH whose START it did not see,
but any FLUSH was obeyed.  A late duplicate of an old sync's FLUSH made the
receiver discard all current data and wait for updates to a sync the sender
had abandoned, so it denied or forgot live challenges until one side was
restarted.
---
 server/libkvpsync/recv.c | 36 +++++++++++++++++++++++++++++++++++-
 server/libkvpsync/recv.h |  6 ++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index f738ae8..19b483a 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -1,6 +1,7 @@
 #include "server/libkvpsync/libkvpsync.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 struct recv_data_t;
 typedef struct recv_data_t recv_data_t;
@@ -252,6 +253,36 @@ fail:
     return e;
 }
 
+// returns nstarted if we have not seen a START with this sync_id
+static size_t find_started(const kvpsync_recv_t *r, uint32_t sync_id){
+    size_t i = 0;
+    while(i < r->nstarted && r->started[i] != sync_id) i++;
+    return i;
+}
+
+static void handle_start(kvpsync_recv_t *r, uint32_t sync_id){
+    // ignore duplicates
+    if(find_started(r, sync_id) < r->nstarted) return;
+    if(r->nstarted == SYNC_HISTORY){
+        // forget the oldest
+        r->nstarted--;
+        memmove(
+            &r->started[0], &r->started[1], r->nstarted * sizeof(*r->started)
+        );
+    }
+    r->started[r->nstarted++] = sync_id;
+}
+
+/* A FLUSH without its START must be ignored.  A FLUSH of a sync which started
+   before our current sync is a late packet; obeying it would throw away the
+   current data in favor of a sync which nobody is updating anymore. */
+static bool flush_is_valid(const kvpsync_recv_t *r, uint32_t sync_id){
+    size_t i = find_started(r, sync_id);
+    if(i == r->nstarted) return false;
+    size_t current = find_started(r, r->sync_id);
+    return current == r->nstarted || i >= current;
+}
+
 // process an incoming packet and configure the ack
 // (pre-initial-syncs are acked with reset packets)
 derr_t kvpsync_recv_handle_update(
@@ -275,6 +306,7 @@ derr_t kvpsync_recv_handle_update(
         }
         // got the start packet, ack it as normal
         r->initial_sync_acked = true;
+        handle_start(r, update.sync_id);
         return e;
     }
 
@@ -295,12 +327,14 @@ derr_t kvpsync_recv_handle_update(
             break;
 
         case KVP_UPDATE_START:
-            // noop, sender-side resyncs happen passively to us
+            // sender-side resyncs happen passively to us
+            handle_start(r, update.sync_id);
             break;
 
         case KVP_UPDATE_FLUSH:
             // ignore any packets before our resync is acknowldged
             if(!r->initial_sync_acked) break;
+            if(!flush_is_valid(r, update.sync_id)) break;
             r->sync_id = update.sync_id;
             r->ok_expiry = MAX(r->ok_expiry, update.ok_expiry);
             flush_stale_data(r);
diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index 33d663e..deecc16 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -5,11 +5,17 @@
    even though in practice that's a lot longer than a real packet can live. */
 #define GC_DELAY (255*SECOND)
 
+// how many syncs we remember, to recognize late packets of old syncs
+#define SYNC_HISTORY 64
+
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
     hashmap_t h;  // maps dstr_t keys to dstr_t values
     uint32_t recv_id;  // randomly chosen at boot
     uint32_t sync_id;  // the send_id for a sync we've completed, or zero
+    // sync_ids which we saw start, oldest first
+    uint32_t started[SYNC_HISTORY];
+    size_t nstarted;
     bool initial_sync_acked;
     xtime_t ok_expiry;
     link_t gc; // recv_datum_t->gc
-- 
2.43.0


From c1e04438ba98d84005772cd9ad15dea63b6c7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 39/59] fix: a late START doesn't make an older kvpsync sync
 valid again

---
 server/libkvpsync/recv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index 19b483a..9b44af1 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -279,6 +279,11 @@ static void handle_start(kvpsync_recv_t *r, uint32_t sync_id){
 static bool flush_is_valid(const kvpsync_recv_t *r, uint32_t sync_id){
     size_t i = find_started(r, sync_id);
     if(i == r->nstarted) return false;
+    /* each sender increments its sync_id, so a slightly smaller value is older
+       than our current sync, even if its START arrived late as well, like when
+       we restarted in the meantime */
+    uint32_t age = r->sync_id - sync_id;
+    if(age > 0 && age <= UINT16_MAX) return false;
     size_t current = find_started(r, r->sync_id);
     return current == r->nstarted || i >= current;
 }
-- 
2.43.0


From 50d089adbe93bdc1a8d50dcb0ad4de95e776889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 40/59] fix: ignore late kvpsync resync requests of a
 receiver's earlier lives

---
 server/libkvpsync/send.c | 9 +++++++--
 server/libkvpsync/send.h | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/libkvpsync/send.c b/server/libkvpsync/send.c
index f6eb207..4bf1356 100644
--- a/server/libkvpsync/send.c
+++ b/server/libkvpsync/send.c
@@ -320,8 +320,13 @@ static void _kvpsync_send_handle_ack(
     // detect resync packets
     if(ack.update_id == 0){
         uint32_t resync_id = ack.sync_id;
-        // ignore duplicates (we have normal resend logic)
-        if(resync_id == s->resync_id) return;
+        /* ignore duplicates (we have normal resend logic), including late
+           packets from before the receiver last restarted: we may have told
+           the current receiver that it is ok */
+        for(size_t i = 0; i < RESYNC_HISTORY; i++){
+            if(resync_id == s->resync_ids[i]) return;
+        }
+        s->resync_ids[s->nresyncs++ % RESYNC_HISTORY] = resync_id;
         kvpsync_send_resync(s, resync_id);
         return;
     }
diff --git a/server/libkvpsync/send.h b/server/libkvpsync/send.h
index a070088..c3708df 100644
--- a/server/libkvpsync/send.h
+++ b/server/libkvpsync/send.h
@@ -3,12 +3,17 @@ typedef struct kvpsync_send_t kvpsync_send_t;
 
 typedef void (*recv_state_cb)(kvpsync_send_t*, bool, void*);
 
+#define RESYNC_HISTORY 64
+
 struct kvpsync_send_t {
     recv_state_cb state_cb;
     void *cb_data;
 
     uint32_t sync_id;
     uint32_t resync_id;
+    // the latest resync_ids we have reacted to
+    uint32_t resync_ids[RESYNC_HISTORY];
+    size_t nresyncs;
     uint32_t update_id; // latest value
 
     /* Track our own cache to make resyncing easy, and to ensure cbs are
-- 
2.43.0


From bd0a1f073d7eaf153976ed4a3d616412153372cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 41/59] fix: a duplicate kvpsync FLUSH doesn't drop a later
 sync's data

---
 server/libkvpsync/recv.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index 9b44af1..4ed980d 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -165,14 +165,6 @@ static void do_gc(kvpsync_recv_t *r, xtime_t now){
     }
 }
 
-static bool _flush_should_free(kvpsync_recv_t *r, recv_datum_t *datum){
-    return datum->sync_id != r->sync_id;
-}
-
-static void flush_stale_data(kvpsync_recv_t *r){
-    for_each_datum(r, _flush_should_free);
-}
-
 static derr_t handle_recv_or_delete(
     kvpsync_recv_t *r,
     xtime_t now,
@@ -288,6 +280,16 @@ static bool flush_is_valid(const kvpsync_recv_t *r, uint32_t sync_id){
     return current == r->nstarted || i >= current;
 }
 
+static bool _flush_should_free(kvpsync_recv_t *r, recv_datum_t *datum){
+    // keep the data of later syncs; it will not be sent again before their FLUSH
+    size_t i = find_started(r, datum->sync_id);
+    return i == r->nstarted || i < find_started(r, r->sync_id);
+}
+
+static void flush_stale_data(kvpsync_recv_t *r){
+    for_each_datum(r, _flush_should_free);
+}
+
 // process an incoming packet and configure the ack
 // (pre-initial-syncs are acked with reset packets)
 derr_t kvpsync_recv_handle_update(
-- 
2.43.0


From 05b83f4dc8877a5dfc4fa6fdfa430ab18b608171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 42/59] fix: passthru: remember which write a queued write was
 submitted for

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 278350e..8661b57 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -217,6 +217,7 @@ static void advance_state(duv_passthru_t *p){
         link = link_list_pop_first(&p->pool);
         passthru_write_mem_t *mem;
         mem = CONTAINER_OF(link, passthru_write_mem_t, link);
+        mem->req = req;
         dstr_t *dbufs = get_bufs_ptr(req);
         // get uv_buf_t array from provided dstr_t array
         uv_buf_t *bufs;
-- 
2.43.0


From f2d351d177a4d74e14a1bd32f1eb21f262639cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 43/59] fix: passthru: do not shut the socket down a second
 time

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 8661b57..932363e 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -419,6 +419,7 @@ static void passthru_shutdown(stream_i *iface, stream_shutdown_cb shutdown_cb){
 
     // if possible, do the shutdown now to make the passthru transparent
     if(!p->writes.inflight){
+        p->shutdown.requested = true;
         int ret = uv_shutdown(&p->shutdown.req, p->uvstream, _shutdown_cb);
         if(ret < 0){
             TRACE_ORIG_UV(&p->e, ret);
-- 
2.43.0


From f22ea0837bffc2c60dd2e3749950f342ecad3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 44/59] fix: duv_tls: do not spin on a write which has an empty
 buffer in it

---
 libduvtls/tls.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index f24f9a6..64fafd4 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -344,13 +344,10 @@ static bool _advance_ssl_write(duv_tls_t *t){
             }
             // one successful SSL_write, but maybe not a whole write req
             t->nwritten += nwritten;
-            if(t->nwritten >= buf.len){
-                // done encrypting this buffer
-                t->nwritten = 0;
-                t->nbufswritten++;
-                break;
-            }
         }
+        // done encrypting this buffer
+        t->nwritten = 0;
+        t->nbufswritten++;
     }
 
     return true;
-- 
2.43.0


From 2251e14b98ed04f82fa8245186947b0f8acfc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 45/59] fix: duv_tls: free the buffer lists of long writes

---
 libduvtls/tls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index 64fafd4..3d2c0eb 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -271,6 +271,7 @@ static bool next_nonempty_write_req(duv_tls_t *t, stream_write_t **out){
         }
         // handle empty write request
         link_remove(&req->link);
+        stream_write_free(req);
         req->cb(&t->iface, req);
         // detect if the user closed us
         if(failing(t)){
@@ -304,6 +305,7 @@ static bool _advance_ssl_write(duv_tls_t *t){
         // done with this req
         t->nbufswritten = 0;
         link_remove(&req->link);
+        stream_write_free(req);
         req->cb(&t->iface, req);
         // detect if the user closed us
         if(failing(t)) return false;
@@ -548,6 +550,10 @@ static void _advance_close(duv_tls_t *t){
     link_t reads = {0};
     link_t writes = {0};
     link_list_append_list(&reads, &t->reads);
+    stream_write_t *req, *temp;
+    LINK_FOR_EACH_SAFE(req, temp, &t->writes, stream_write_t, link){
+        stream_write_free(req);
+    }
     link_list_append_list(&writes, &t->writes);
     t->await_cb(&t->iface, t->e, &reads, &writes);
 }
-- 
2.43.0


From 73d5ffd7d4eeefa0c3912869b1cbe4d1dd4de04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 46/59] fix: passthru: free the buffer lists of writes which
 were never submitted

---
 libduv/passthru.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 932363e..89d3f8f 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -230,8 +230,6 @@ static void advance_state(duv_passthru_t *p){
         }
         // submit write
         int ret = uv_write(&mem->uvw, p->uvstream, bufs, req->nbufs, write_cb);
-        // done with memory in req
-        stream_write_free(req);
         if(ret < 0){
             // return mem to pool
             link_list_append(&p->pool, &mem->link);
@@ -241,6 +239,8 @@ static void advance_state(duv_passthru_t *p){
             TRACE_ORIG_UV(&p->e, ret);
             goto closing;
         }
+        // done with memory in req
+        stream_write_free(req);
         // write was successful
         p->writes.inflight++;
     }
@@ -300,6 +300,11 @@ closing:
         link_t writes = {0};
         link_list_append_list(&reads, &p->reads);
         link_list_append_list(&writes, &p->writes.failed);
+        // the writes which were never submitted still own their memory
+        stream_write_t *req, *temp;
+        LINK_FOR_EACH_SAFE(req, temp, &p->writes.pending, stream_write_t, link){
+            stream_write_free(req);
+        }
         link_list_append_list(&writes, &p->writes.pending);
         if(!failing(p)){
             if(!link_list_isempty(&reads)){
-- 
2.43.0


From 2dad146d0d5f29a6b798629b9040d6b24d92bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:35 +0000
Subject: [PATCH 47/59] fix: duv_tls: flush the close_notify before closing the
 base stream

---
 libduvtls/tls.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index 3d2c0eb..1fbe969 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -33,8 +33,18 @@ static bool failing(duv_tls_t *t){
     return t->iface.canceled || is_error(t->e);
 }
 
+// have we seen both ends of the stream?
+static bool complete(duv_tls_t *t){
+    return t->iface.eof && t->shutdown;
+}
+
+// is everything we have to say on the wire?
+static bool flushed(duv_tls_t *t){
+    return !t->write_pending && (!t->rawout || BIO_eof(t->rawout));
+}
+
 static bool closing(duv_tls_t *t){
-    return failing(t) || (t->iface.eof && t->shutdown);
+    return failing(t) || (complete(t) && (flushed(t) || t->base_awaited));
 }
 
 static void respond_all_eof(duv_tls_t *t){
@@ -92,7 +102,10 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
     duv_tls_t *t = base->wrapper_data;
     t->base_awaited = true;
 
-    if(!t->base_canceled){
+    if(complete(t)){
+        // we were only flushing our close_notify, which the peer may ignore
+        DROP_VAR(&e);
+    }else if(!t->base_canceled){
         // if we didn't cancel, nobody else is allowed to
         UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     }else{
-- 
2.43.0


From 5111e884121b483a3486d55b911263967ebef664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:36 +0000
Subject: [PATCH 48/59] fix: passthru: close when a write fails

---
 libduv/passthru.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 89d3f8f..946a1d5 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -189,12 +189,12 @@ static void write_cb(uv_write_t *uvw, int status){
     if(!failing(p)){
         // successful write, call user callback
         req->cb(&p->iface, req);
-        // that user cb may result in new writes
-        advance_state(p);
     }else{
         // failed write, put it in the failed list
         link_list_append(&p->writes.failed, &req->link);
     }
+    // that user cb may result in new writes, or a failure may let us close
+    advance_state(p);
 }
 
 static void _shutdown_cb(uv_shutdown_t *shutdown_req, int status){
-- 
2.43.0


From 7b18a370332e2fd63d9f6deb438269f021bf803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 49/59] fix: duv_connect: try the next address when connecting
 fails immediately

---
 libduv/connect.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libduv/connect.c b/libduv/connect.c
index 988e5a7..6551449 100644
--- a/libduv/connect.c
+++ b/libduv/connect.c
@@ -147,21 +147,18 @@ static void advance_state(duv_connect_t *c){
             &c->connect.req, c->tcp_handle, c->gai.ptr->ai_addr, connect_cb
         );
         if(ret < 0){
-            DROP_VAR(&c->e);
-            derr_t e = E_OK;
-            TRACE_ORIG(&e,
-                derr_type_from_uv_status(ret),
-                "uv_tcp_connect: %x",
-                FS(uv_strerror(c->gai.status))
-            );
-            finish(c, e);
-            return;
+            // some failures are known immediately, like having no route
+            c->connect.started = true;
+            c->connect.returned = true;
+            c->connect.status = ret;
+            goto connect_returned;
         }
         c->connect.started = true;
         // call test hook in test code
         if(_connect_started_hook) _connect_started_hook();
     }
 
+connect_returned:
     if(!c->connect.returned) return;
     // have a connection result
     if(c->connect.status < 0){
-- 
2.43.0


From 46250cccff97dcee1c24e204963ff4b073bc23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 50/59] fix: duv_connect: a canceled connect doesn't wait for
 the network

---
 libduv/connect.c | 10 ++--------
 libduv/connect.h |  1 -
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/libduv/connect.c b/libduv/connect.c
index 6551449..cce370b 100644
--- a/libduv/connect.c
+++ b/libduv/connect.c
@@ -51,14 +51,6 @@ static void advance_state(duv_connect_t *c){
 
     // cancel logic
     if(c->canceling){
-        if(c->connect.started){
-            // we are mid-connect
-            if(!c->connect.canceling){
-                uv_cancel((uv_req_t*)&c->connect.req);
-                c->connect.canceling = true;
-            }
-            if(!c->connect.returned) return;
-        }
         if(c->tcp.open){
             // we have an open tcp still
             if(!c->tcp.closing){
@@ -66,6 +58,8 @@ static void advance_state(duv_connect_t *c){
                 c->tcp.closing = true;
                 duv_tcp_close(c->tcp_handle, close_cb);
             }
+            // closing also fails any connect in flight with UV_ECANCELED
+            if(c->connect.started && !c->connect.returned) return;
             if(!c->tcp.closed) return;
         }
         if(!c->gai.returned){
diff --git a/libduv/connect.h b/libduv/connect.h
index b252838..854a89a 100644
--- a/libduv/connect.h
+++ b/libduv/connect.h
@@ -64,7 +64,6 @@ struct duv_connect_t {
     struct {
         uv_connect_t req;
         bool started;
-        bool canceling;
         bool returned;
         int status;
     } connect;
-- 
2.43.0


From a5c7d80e1f036dfa35a184ca4f659a75fcbd75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:04 +0000
Subject: [PATCH 51/59] fix: http reader: scan an incomplete token again when
 there is more to it

A response whose status line (or any line after the first of a read) was
split inside a token lost the part of the token which came first, unless
the buffer had been shifted.
---
 libweb/http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libweb/http.c b/libweb/http.c
index f8c060a..8eabb22 100644
--- a/libweb/http.c
+++ b/libweb/http.c
@@ -72,6 +72,9 @@ derr_t http_read(http_reader_t *r, http_pair_t *pair, int *state_out){
                 r->s = web_scanner(r->buf);
                 // any tokens we've built up are now invalid
                 web_parser_reset(&r->p);
+            }else{
+                // a token which might have more to it must be scanned again
+                r->s.used = scanned.loc.start;
             }
             return e;
         }
-- 
2.43.0


From 4c9905057c5bdc7215201b3c2c49d8702dc7e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:10 +0000
Subject: [PATCH 52/59] fix: http marshaler: a param which needs two buffers is
 not written differently the second time

---
 libhttp/marshal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhttp/marshal.c b/libhttp/marshal.c
index ed484cb..796c93a 100644
--- a/libhttp/marshal.c
+++ b/libhttp/marshal.c
@@ -337,8 +337,6 @@ bool http_marshal_req(
         skip_fill_t sf = { .out = buf, .skip = m->skip };
         if(m->need_amp){
             dstr_skip_fill(&sf, DSTR_LIT("&"));
-        }else{
-            m->need_amp = true;
         }
         http_pair_t pair = m->paramptr->pair;
         url_encode_skip_fill(&sf, pair.key);
@@ -349,6 +347,8 @@ bool http_marshal_req(
             return false;
         }
         m->paramptr = m->paramptr->prev;
+        // not before the whole param is written, or a retry would differ
+        m->need_amp = true;
         m->skip = 0;
     }
 
-- 
2.43.0


From 52b8236a0a90d804c5f02b2ddac0fa62ff9d3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:10 +0000
Subject: [PATCH 53/59] fix: duv_http: never send a request over a connection
 of the other kind

Whether the connection is a TLS one was never recorded, so an http request
could be sent over the https connection to the same host and port.  TLS
connections are still used for one request only.
---
 libhttp/duv_http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 5d177a5..e247548 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -263,7 +263,8 @@ static void req_start(duv_http_req_t *req, http_mem_t *m){
     req->need_conn_cleanup = false
         || (m->connector.active && m->connector.canceling)
         || (m->stream && m->stream->canceled)
-        || m->tls != req->tls
+        // a TLS connection is only used once
+        || m->tls || req->tls
         || !dstr_eq(m->host, req->host)
         || m->port != req->port
     ;
@@ -743,6 +744,7 @@ static void req_advance_state(duv_http_req_t *req){
             // start a new connection
             PROP_GO(&req->e, dstr_copy(&req->host, &m->host), failing);
             m->port = req->port;
+            m->tls = req->tls;
             DSTR_VAR(portbuf, 32);
             PROP_GO(&req->e, FMT(&portbuf, "%x", FU(m->port)), failing);
             m->connector.data = req;
-- 
2.43.0


From b9be8b0c87858f05ff0830785e5c6c84fca700f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:29 +0000
Subject: [PATCH 54/59] fix: duv_http: a completed request does not touch the
 memory it shares with the next one

A request which was awaited or canceled after it was done (or which had
failed and was not awaited yet) canceled the next request's connection.
---
 libhttp/duv_http.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index e247548..6f95f06 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -810,19 +810,20 @@ static void req_advance_state(duv_http_req_t *req){
     // also explicitly wait for our write to finish
     if(req->writing) return;
 
-    // always await our base
-    if(!req->base->awaited) return;
+    // after we are completed the memory belongs to the next request
+    if(!req->completed){
+        // always await our base
+        if(!req->base->awaited) return;
 
-    if(req->expect_close){
-        // the base may have awaited or detached the underlying stream
-        if(m->stream){
-            m->stream->cancel(m->stream);
-            return;
+        if(req->expect_close){
+            // the base may have awaited or detached the underlying stream
+            if(m->stream){
+                m->stream->cancel(m->stream);
+                return;
+            }
         }
-    }
 
-    // the duv_http_t is done with us now
-    if(!req->completed){
+        // the duv_http_t is done with us now
         req->completed = true;
         http_completed_req(req->http, req);
     }
@@ -838,8 +839,8 @@ static void req_advance_state(duv_http_req_t *req){
     return;
 
 failing:
-    // were we even started?
-    if(m){
+    // were we even started, and does the memory still belong to us?
+    if(m && !req->completed){
         /* cleanup the connection after any failure; we don't know what state
            the connection is in */
         if(m->connector.active) duv_connect_cancel(&m->connector);
@@ -851,11 +852,11 @@ failing:
         if(m->stream) return;
     }
 
-    // await our base, if we had one
-    if(req->base && !req->base->awaited) return;
-
-    // the duv_http_t is done with us now
     if(!req->completed){
+        // await our base, if we had one
+        if(req->base && !req->base->awaited) return;
+
+        // the duv_http_t is done with us now
         req->completed = true;
         http_completed_req(req->http, req);
     }
-- 
2.43.0


From 9563ca6a10ee27a90fa0dc9e36973c4120bd5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:04 +0000
Subject: [PATCH 55/59] fix: http streams: give back a read which was in flight
 when the connection ended

borrow and chunked waited forever for their read after the stream had
returned it to their await_cb, so canceling a request whose body was being
read never finished; limit, concat and duv_http returned the user's read
with their own callback.
---
 libduv/concat.c    | 7 ++++++-
 libhttp/borrow.c   | 9 +++++++--
 libhttp/chunked.c  | 6 ++++--
 libhttp/duv_http.c | 9 ++++++++-
 libhttp/limit.c    | 7 +++++++
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/libduv/concat.c b/libduv/concat.c
index 4003fa8..dd6a5aa 100644
--- a/libduv/concat.c
+++ b/libduv/concat.c
@@ -22,7 +22,12 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     rstream_reads_filter(reads, &ours, read_cb);
     /* we only keep one read in flight, so if it was on this stream, we are
        no longer reading */
-    if(!link_list_isempty(&ours)) c->reading = false;
+    rstream_read_t *read, *temp;
+    LINK_FOR_EACH_SAFE(read, temp, &ours, rstream_read_t, link){
+        // give the read back as we were given it
+        read->cb = c->original_read_cb;
+        c->reading = false;
+    }
     link_list_prepend_list(&c->reads, &ours);
     // call its original await cb with any reamining unfinished reads
     if(c->base_await_cbs[w->idx]){
diff --git a/libhttp/borrow.c b/libhttp/borrow.c
index 159ee38..77de31e 100644
--- a/libhttp/borrow.c
+++ b/libhttp/borrow.c
@@ -49,9 +49,14 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
     if(b->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&b->e, &e);
+    // if our read was still in flight, it is not coming back
+    link_t ours = {0};
+    stream_reads_filter(reads, &ours, read_cb);
+    if(!link_list_isempty(&ours)){
+        b->reading = false;
+        link_list_prepend(&b->reads, &b->rread->link);
+    }
     if(b->original_await_cb){
-        link_t ours = {0};
-        stream_reads_filter(reads, &ours, read_cb);
         b->original_await_cb(b->base, E_OK, reads, writes);
     }
     advance_state(b);
diff --git a/libhttp/chunked.c b/libhttp/chunked.c
index 3f1eb14..a782ab3 100644
--- a/libhttp/chunked.c
+++ b/libhttp/chunked.c
@@ -25,9 +25,11 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     if(c->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&c->e, &e);
+    // if our read was still in flight, it is not coming back
+    link_t ours = {0};
+    rstream_reads_filter(reads, &ours, read_cb);
+    if(!link_list_isempty(&ours)) c->reading = false;
     if(c->original_await_cb){
-        link_t ours = {0};
-        rstream_reads_filter(reads, &ours, read_cb);
         c->original_await_cb(c->base, E_OK, reads);
     }
     advance_state(c);
diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 6f95f06..e65399c 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -8,6 +8,9 @@ static void http_advance_state(duv_http_t *h);
 static void req_advance_state(duv_http_req_t *req);
 static void req_cancel(duv_http_req_t *req);
 static void req_start(duv_http_req_t *req, http_mem_t *mem);
+static void req_read_cb_body(
+    rstream_i *rstream, rstream_read_t *read, dstr_t buf
+);
 
 static void duv_http_free_allocations(duv_http_t *h){
     dstr_free(&h->mem.write_buf);
@@ -281,7 +284,11 @@ static void req_base_await_cb(rstream_i *rstream, derr_t e, link_t *reads){
     DROP_CANCELED_VAR(&e);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&req->e, &e);
 
-    // unfinished reads go back to pending reads
+    // unfinished reads go back to pending reads, as we were given them
+    rstream_read_t *read, *temp;
+    LINK_FOR_EACH_SAFE(read, temp, reads, rstream_read_t, link){
+        if(read->cb == req_read_cb_body) read->cb = req->original_read_cb;
+    }
     link_list_prepend_list(&req->reads, reads);
     req->reading = false;
 
diff --git a/libhttp/limit.c b/libhttp/limit.c
index bd21be1..0d8dd5d 100644
--- a/libhttp/limit.c
+++ b/libhttp/limit.c
@@ -46,6 +46,13 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     // capture any unfinished reads
     link_t ours = {0};
     rstream_reads_filter(reads, &ours, read_cb);
+    // we only keep one read in flight; return it as we were given it
+    rstream_read_t *read, *temp;
+    LINK_FOR_EACH_SAFE(read, temp, &ours, rstream_read_t, link){
+        read->cb = l->original_read_cb;
+        read->buf.size = l->original_read_buf_size;
+        l->reading = false;
+    }
     link_list_prepend_list(&l->reads, &ours);
     if(l->original_await_cb){
         l->original_await_cb(l->base, E_OK, reads);
-- 
2.43.0


From 71f3e77987602eff140835d20ece90302d5478cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:46 +0000
Subject: [PATCH 56/59] fix: duv_http: a request which could not be started
 does not touch the http client any more

---
 libhttp/duv_http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index e65399c..24f8b2b 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -1023,7 +1023,11 @@ rstream_i *duv_http_req_ex(
     link_list_append(&http->pending, &req->link);
     http_schedule(http);
 
+    return &req->iface;
+
 fail:
+    // http does not know of us, and might be gone before we are awaited
+    req->completed = true;
     // no need to schedule even in failure cases; await() will shedule
     return &req->iface;
 }
-- 
2.43.0


From 9b4edafd3cb8faa057552067a43a07530f11d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:29 +0000
Subject: [PATCH 57/59] fix: http limit stream: do not tell the user of an end
 which came too early

The user's read got an EOF as if the body was complete, before the error
came by the await_cb.
---
 libhttp/limit.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhttp/limit.c b/libhttp/limit.c
index 0d8dd5d..3ae2942 100644
--- a/libhttp/limit.c
+++ b/libhttp/limit.c
@@ -24,14 +24,18 @@ static void read_cb(rstream_i *base, rstream_read_t *read, dstr_t buf){
     l->reading = false;
     l->nread += buf.len;
 
+    buf.size = l->original_read_buf_size;
+    read->cb = l->original_read_cb;
+    read->buf = buf;
+
     if(buf.len == 0){
-        // early EOF is an error
+        // early EOF is an error, which the user must not mistake for the end
         TRACE_ORIG(&l->e, E_RESPONSE, "unexpected EOF");
+        link_list_prepend(&l->reads, &read->link);
+        advance_state(l);
+        return;
     }
 
-    buf.size = l->original_read_buf_size;
-    read->cb = l->original_read_cb;
-    read->buf = buf;
     read->cb(&l->iface, read, buf);
 
     advance_state(l);
-- 
2.43.0


From 2815351428f36993808a39a7e4084bd857ee9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:13 +0000
Subject: [PATCH 58/59] fix: borrow: do not read from a stream which is
 canceled already

Canceling an http request just after a read was submitted aborted the
program.
---
 libhttp/borrow.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libhttp/borrow.c b/libhttp/borrow.c
index 77de31e..9ba2977 100644
--- a/libhttp/borrow.c
+++ b/libhttp/borrow.c
@@ -66,6 +66,9 @@ static void advance_state(borrow_rstream_t *b){
     link_t *link;
     if(closing(b)) goto closing;
 
+    // (our base could also be canceled without us)
+    if(b->base->canceled || b->base->awaited) return;
+
     if(!b->reading && (link = link_list_pop_first(&b->reads))){
         b->rread = CONTAINER_OF(link, rstream_read_t, link);
         // submit to base stream
-- 
2.43.0


From 1e82ba657e037ad936a8ae5edf07c449e566aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 59/59] fix: duv_http: keep the idle timer of a request which
 was over as soon as it started

---
 libhttp/duv_http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 24f8b2b..da9eaed 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -55,9 +55,9 @@ static void http_advance_state(duv_http_t *h){
 
     // start the request
     h->req = req;
-    req_start(req, &h->mem);
-    // cancel any idle timer
+    // cancel any idle timer (a request which is over at once restarts it)
     duv_timer_must_stop(&h->timer);
+    req_start(req, &h->mem);
 
     return;
 
-- 
2.43.0

