#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))

DIR = "libimaildir/"; CI = "libcitm/"
EX = "Seeded search over plans (sessions, other devices, faults) and schedules; finds violations, does not prove absence. "
ENVN = "Trusts the in-memory file system's crash model, the model IMAP server and the simulated streams; TLS and sockets are below the seam."

prop("C01", "Mailboxes converge to the server's: nothing lost, doubled or invented",
 "Once faults stop, a session that selects a mailbox through the citm (and one that stayed in it and issues a NOOP) sees exactly the messages of the upstream mailbox that this device can show, each of them once, apart from new-device announcements. A client is told that a message is expunged only if it is gone from the server, and is never shown a message nobody sent.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of up to four client sessions, the upstream server's pushes and other devices' deliveries, expunges, flag changes, mailbox creations and deletions, with connection losses, stalls and refusals at any point",
 "The unit tests drive one up_t or dn_t with one fixed script each, and test/e2e tests run a handful of scripted sessions against dovecot with real timing; none of them interleaves sessions, pushes, holds and reconnects, and none compares whole mailboxes afterwards.",
 [DIR+"imaildir.c", DIR+"up.c", DIR+"dn.c", DIR+"dirmgr.c", CI+"sc.c"],
 [("QRESYNC select, bootstrap and detection fetches keep the local copy in step", DIR+"up.c"), ("updates are fanned out to every open view", DIR+"imaildir.c: distribute_update_*"), ("holds keep an APPEND or COPY from being downloaded twice", DIR+"dirmgr.c: dirmgr_hold_*")],
 EX+ENVN)
prop("C02", "Every session's view is consistent: EXISTS, EXPUNGE, UIDs, FETCH",
 "Within a session the untagged responses describe one consistent mailbox: EXISTS grows it, EXPUNGE removes an existing number and is never sent during FETCH, STORE or SEARCH or with no command in progress, message numbers map to ascending UIDs that never change, and every FETCH names an existing message. A FETCH of messages the client was never told are gone returns each of them, however the mailbox changes meanwhile.",
 ["schedules", "histories"], "every interleaving of several sessions on a mailbox, with concurrent expunges, deliveries and flag changes arriving between and during any of their commands",
 "The dn_t unit tests check the responses of single commands to a fixed sequence of updates; the view of a session over a long history of concurrent changes is never checked.",
 [DIR+"dn.c", DIR+"imaildir.c", DIR+"msg.c"],
 [("updates are gathered and only released at points where the client may hear of them", DIR+"dn.c: gather_updates_dont_send, gather_send_responses"), ("expunged messages stay until the last view has let go", DIR+"imaildir.c: old_msg_t")],
 EX+ENVN)
prop("C03", "UIDs are permanent: ascending, never reused, one body per UID",
 "For a mailbox and UIDVALIDITY a UID shown to any client refers to one message for ever: same body, same INTERNALDATE, across sessions, restarts, kills and power loss. New messages get UIDs above all UIDs ever announced (and at least the announced UIDNEXT), an expunged UID never comes back, and UIDVALIDITY never goes down.",
 ["histories", "crash_points", "schedules"], "every history of sessions over several incarnations of the citm, killed or losing power at any file system operation",
 "The tests open a mailbox once or twice with a clean shutdown in between; they cannot reach a crash between the two writes that assign a UID and publish it.",
 [DIR+"imaildir.c", DIR+"log_file.c", DIR+"msg.c", DIR+"name.c"],
 [("UIDs are assigned when a message's file is complete, and logged before they are shown", DIR+"imaildir.c: finalize_msg"), ("the log is replayed on open; files without a log entry are given new UIDs", DIR+"log_file.c, "+DIR+"imaildir.c: add_msg_to_maildir")],
 EX+"Crash model: on power loss unsynced file data may be kept, lost or torn, directory operations not followed by an fsync may be lost in suffix order. "+ENVN)
prop("C04", "A crash or power loss at any point loses nothing and recovers",
 "If the citm is killed or the machine loses power at any file system operation, then after a restart every account can be opened again and every mailbox converges to the server's content, dates and flags, with no damage to messages downloaded before. No operator action is needed.",
 ["crash_points", "histories"], "kill -9 and power loss (unsynced data lost or torn) armed at the n-th file system operation after any point of a run, up to four times per run",
 "No existing test kills the process; the log tests write and reopen complete files only.",
 [DIR+"log_file.c", DIR+"imaildir.c", DIR+"dirmgr.c", "libdstr/fileops.c", CI+"keydir.c"],
 [("messages are written to tmp/, synced and renamed", DIR+"imaildir.c: handle_new_msg_file"), ("the log is append-only, synced, and tolerates a torn tail", DIR+"log_file.c"), ("an interrupted bootstrap is restarted", DIR+"up.c: untagged_ok")],
 EX+"Crash model: see C03. "+ENVN)
prop("C05", "Nothing is deleted or marked deleted upstream unless a client asked",
 "The citm expunges a message on the server only if a client's EXPUNGE or CLOSE on that mailbox (opened read-write) covered it and it was marked \\Deleted in that client's view, or a device asked for it; it never marks a message \\Deleted unasked, and never touches messages that no client of this device can see.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of STORE, EXPUNGE and CLOSE by several sessions with deliveries, connection losses, restarts and UIDVALIDITY changes",
 "Tests check that an expunge arrives, not that no other one ever does; the wrong message would only be hit through a race or a stale UID map.",
 [DIR+"imaildir.c", DIR+"dn.c", DIR+"up.c", DIR+"log_file.c"],
 [("expunges are recorded with their state and pushed once", DIR+"imaildir.c, "+DIR+"up.c: deletions"), ("uid_dn to uid_up mapping", DIR+"msg.c")],
 EX+ENVN)
prop("C06", "An acknowledged EXPUNGE or CLOSE is final and reaches the server",
 "Once EXPUNGE or CLOSE was answered OK, the messages it covered are gone from the server, or will be once the server can be reached, even if the citm is killed in between; no session is shown one of them again. A message that is gone from the server disappears from every session.",
 ["histories", "crash_points", "schedules"], "all interleavings and connection losses, with kills and power loss between the acknowledgement and the upstream command",
 "Requires histories across reconnects and restarts; the tests stop at the first acknowledged command.",
 [DIR+"imaildir.c", DIR+"up.c", DIR+"dn.c", DIR+"log_file.c"],
 [("unpushed expunges are logged and pushed by the next connection", DIR+"up.c: imaildir_up_get_unpushed_expunges"), ("an expunged UID is refused when the server reports it again", DIR+"imaildir.c: imaildir_up_lookup_msg")],
 EX+"One known finding is listed (upload-ghost). "+ENVN)
prop("C07", "Acknowledged flag changes persist; no flag changes that nobody asked for",
 "After STORE was answered OK the flags it set are what the server has and what every session sees, until somebody changes them again; concurrent changes are applied in some order. The citm changes a flag on the server only if a client asked for exactly that change, and after things settle every session shows the server's flags.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of STOREs (+, -, replace, silent), implicit \\Seen, other devices' flag changes and pushes, over reconnects and restarts",
 "Each flag is a register written concurrently by many parties; a lost update needs a race the single-script tests do not have.",
 [DIR+"imaildir.c", DIR+"up.c", DIR+"dn.c"],
 [("STOREs are relayed to the server and answered when it answers", DIR+"imaildir.c: service_update_store, relays"), ("meta updates reach every view", DIR+"imaildir.c: distribute_update_meta")],
 EX+"Flags are judged as registers: a value is an error only if a contrary acknowledged write certainly came later. "+ENVN)
prop("C08", "Every command gets exactly one answer, in order and in bounded time",
 "Every command a client sends is answered by exactly one tagged response, in the order sent, unless the connection ends with a BYE or by the client's own doing; once nothing is left to arrive from the network no command is left waiting. Valid commands are not refused, malformed input does not end the process, and a session whose upstream connection fails is told BYE.",
 ["schedules", "inputs", "fault_sequences"], "all pipelined command sequences of several clients under every delivery order and segmentation, with upstream failures, refusals and stalls, client disconnects and disk errors at any point",
 "Tests send one command at a time to a healthy server; a hang or an abort needs a particular overlap of two sessions, a reconnect and a failure.",
 [CI+"sc.c", CI+"citm.c", CI+"io_pair.c", CI+"anon.c", CI+"preuser.c", CI+"user.c", DIR+"dn.c", DIR+"up.c", DIR+"dirmgr.c"],
 [("the server/client state machine", CI+"sc.c: advance_state"), ("login state machine and hand-over", CI+"anon.c, "+CI+"preuser.c, "+CI+"user.c"), ("relays, reselects and holds", DIR+"imaildir.c, "+DIR+"up.c, "+DIR+"dirmgr.c")],
 EX+"Liveness: after faults stop, the run must come to rest within 300000 events with no command waiting. "+ENVN)
prop("C09", "A UIDVALIDITY change discards the old copy and nothing else",
 "When the server's UIDVALIDITY of a mailbox changes at any moment, the citm rebuilds its copy and converges to the new content, without applying any flag change or expunge meant for an old message to a new one, even if it is killed meanwhile; clients never see the same UIDVALIDITY for the two.",
 ["histories", "crash_points", "schedules"], "mailboxes recreated by another device at any point of a run, with sessions, pending expunges, STOREs, COPYs and APPENDs outstanding, with kills at any file system operation",
 "One unit test replaces the UIDVALIDITY of an idle mailbox; pending work for old UIDs is never outstanding in it.",
 [DIR+"imaildir.c", DIR+"up.c", DIR+"log_file.c"],
 [("imaildir_up_check_uidvld_up wipes and restarts", DIR+"imaildir.c"), ("queued fetches and deletions are dropped", DIR+"up.c: untagged_ok"), ("stale APPENDUID/COPYUID are ignored", CI+"sc.c: check_append, "+DIR+"imaildir.c: relay_copy_cb")],
 EX+ENVN)
prop("C10", "EXAMINE never changes anything",
 "A session that opened a mailbox with EXAMINE is told READ-ONLY, has its STOREs and EXPUNGEs refused, and causes no STORE, EXPUNGE or \\Seen on the server by reading bodies or closing; while other sessions have the mailbox open read-write their changes still work.",
 ["schedules", "histories"], "all interleavings of examining and selecting sessions of a mailbox, with reselects between the two modes and reconnects",
 "Tests EXAMINE a mailbox alone; the upstream connection is shared by sessions of both modes and switches between them.",
 [DIR+"imaildir.c", DIR+"dn.c", DIR+"up.c"],
 [("the upstream mode follows the most demanding view", DIR+"imaildir.c: imaildir_up_synced, reselects"), ("read-only checks", DIR+"dn.c")],
 EX+ENVN)
prop("C11", "Disk errors and full disks never lose mail for good",
 "If file operations fail with I/O errors, a full disk or short writes, sessions may fail and commands may be refused, but the process does not die, and once the disk works again (and the citm was restarted) every mailbox converges to the server's content and flags.",
 ["fault_sequences", "schedules"], "EIO, ENOSPC and short writes at any one to four of the file operations of a run, combined with any of the other activity",
 "No test makes a file operation fail.",
 [DIR+"imaildir.c", DIR+"log_file.c", DIR+"dirmgr.c", DIR+"msg.c", "libdstr/fileops.c", CI+"keydir.c", CI+"sc.c"],
 [("failures make the imaildir inconsistent and close its sessions", DIR+"imaildir.c: imaildir_maybe_fail"), ("state is logged before it is relied on", DIR+"log_file.c")],
 EX+ENVN)
prop("C12", "COPY and APPEND happen exactly once, with the right content and flags",
 "An APPEND or COPY that was answered OK put each message into the destination mailbox on the server exactly once, encrypted to the account's keys for APPEND, with the same bytes, flags and date; one that was refused or never answered put it there at most once; and a client finds it there once.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of APPENDs and COPYs by several sessions into open, closed and missing mailboxes, with connection losses at any byte and concurrent downloads of the destination",
 "Doubling or loss needs a concurrent download of the destination or a connection lost between the command and its answer.",
 [CI+"sc.c", DIR+"imaildir.c", DIR+"dirmgr.c"],
 [("holds on the destination", DIR+"dirmgr.c: dirmgr_hold_new"), ("local copies are added under the UID the server answers", CI+"sc.c: check_append, "+DIR+"imaildir.c: relay_copy_cb")],
 EX+"Two known findings are listed (copy-replayed, copy-local-nobox). "+ENVN)
prop("C13", "Users are isolated; only a correct login gives access",
 "No client is served anything, and nothing about mailboxes is sent upstream, before the server has accepted its login; a wrong password is refused and a right one accepted. A user's mail, keys and files are never shown to, written for, or encrypted to the keys of another user, and the citm touches no file outside its directory.",
 ["schedules", "histories", "inputs"], "all interleavings of logins (right, wrong, pipelined, dropped) and sessions of two users, including logouts and reconnects",
 "Tests use one user; hand-over of connections between users' state needs concurrent logins.",
 [CI+"anon.c", CI+"preuser.c", CI+"user.c", CI+"citm.c", CI+"sc.c", CI+"keydir.c", DIR+"dirmgr.c"],
 [("hand-over of authenticated pairs to the right user", CI+"citm.c, "+CI+"preuser.c"), ("per-user directory and keys", CI+"keydir.c")],
 EX+ENVN)
prop("C14", "Shutdown completes and leaves nothing behind",
 "Asked to stop at any moment the citm closes all of its connections, comes to rest, and has closed every file and released all memory it allocated.",
 ["schedules", "fault_sequences"], "shutdown at any point of a run with any number of sessions, logins, syncs, holds, relays and failures in progress",
 "Leak checks of the unit tests cover their own paths; a leak or hang at shutdown depends on what was in flight.",
 [CI+"citm.c", CI+"sc.c", CI+"user.c", CI+"preuser.c", CI+"anon.c", CI+"io_pair.c", DIR+"dirmgr.c", DIR+"imaildir.c", DIR+"up.c", DIR+"dn.c"],
 [("cancellation of every state machine", CI+"citm.c: citm_cancel, "+CI+"sc.c"), ("failed and forced closes", DIR+"imaildir.c: imaildir_forceclose")],
 EX+"Memory is tracked by wrapping the allocator; not judged after a simulated kill or a disk error. "+ENVN)
prop("C15", "Key changes are followed and each new device is announced exactly once",
 "When a device's key is added to the account, an announcement naming it appears in the user's INBOX exactly once, never for the own key or one that was there before, and only there; the citm registers only its own public key. This holds whatever order logins, syncs, restarts and connection losses come in.",
 ["schedules", "histories", "crash_points"], "keys added and removed by other devices at any time before, during and after a run's sessions, over reconnects, restarts and kills",
 "Tests add one key to an idle system; the announcement waits for a sync of INBOX and must survive a restart before it.",
 [CI+"keydir.c", CI+"xkey.c", CI+"preuser.c", CI+"user.c", CI+"sc.c"],
 [("XKEYSYNC keeps the set of keys", CI+"xkey.c, "+CI+"keydir.c"), ("pending announcements are delivered with imaildir_add_local_file", CI+"keydir.c")],
 EX+"One known finding is listed (alert-lost). "+ENVN)
prop("C16", "Mail is shown decrypted, marked if not encrypted, and uploads are encrypted",
 "A message encrypted to this device is shown as its plaintext, a message that came unencrypted or cannot be decrypted is shown with a clear marking and without loss of its text, and one encrypted only to other devices is not shown. What the citm uploads is encrypted to its own key and to all and only the current keys of the account.",
 ["inputs", "schedules"], "messages of every kind (encrypted, plain, with and without headers, truncated, with damaged base64, wrong tags or keys, endless metadata lines), delivered in any order and segmentation",
 "The crypto tests decrypt a few fixed messages; damaged ones and concurrent key changes are not tried.",
 [CI+"sc.c", DIR+"imaildir.c", "libcrypto/crypto.c", CI+"keydir.c"],
 [("decrypt_msg classifies and mangles", CI+"keydir.c: mangle_unencrypted, mangle_corrupted"), ("NOT4ME state", DIR+"imaildir.c: imaildir_up_handle_static_fetch_attr")],
 EX+ENVN)
prop("C17", "SEARCH, STATUS, LIST and UNSEEN agree with the mailbox",
 "SEARCH returns exactly the messages of the session's view that match, STATUS counts (messages, unseen, UIDNEXT, UIDVALIDITY) agree with what a SELECT shows at that time, SELECT names the first unseen message, and LIST and LSUB show the server's mailboxes.",
 ["histories", "schedules", "inputs"], "random search expressions over flags, sequence and UID sets, dates, sizes, headers and text (nested NOT, OR, AND), and STATUS of any mailbox at any point of a history of changes, including messages for other devices and announcements",
 "Tests evaluate a list of fixed expressions against one message and never compare STATUS with a mailbox that changes.",
 [DIR+"dn.c", CI+"sc.c", DIR+"imaildir.c", DIR+"search.c"],
 [("search evaluation over the view", DIR+"dn.c: dn_search, libimap"), ("STATUS responses are corrected for local information", DIR+"imaildir.c: imaildir_process_status_resp")],
 EX+ENVN)
prop("C19", "Bodies, sizes, headers, parts and dates are reported byte for byte",
 "Every FETCH of a message's body, header, text, part of it or byte range returns exactly the bytes of the decrypted message, RFC822.SIZE is their number, and INTERNALDATE is the one given at delivery or APPEND, however the network splits the data and whatever else happens meanwhile.",
 ["inputs", "schedules"], "messages of random sizes and content under every segmentation of both connections, fetched while others sync, restart or copy",
 "Tests compare a few small bodies; chunk boundaries inside encoded lines, tags and literals are hit only by chance.",
 [DIR+"dn.c", DIR+"imaildir.c", "libcrypto/crypto.c", "libimap/read.c", "libimap/write.c", "libimap/imf.c"],
 [("streaming decryption to a file", CI+"keydir.c, libcrypto/crypto.c"), ("body sections and partials", DIR+"dn.c, libimap/imf.c")],
 EX+ENVN)
prop("C20", "The citm is a correct IMAP client whatever the network does to the bytes",
 "Everything the citm sends upstream is a well-formed command that is valid in the connection's state (ENABLE before QRESYNC use, no commands while IDLE or an XKEYSYNC is in progress, mailbox commands only with a mailbox selected), with unique tags, and its behaviour does not depend on how the network splits or delays the bytes of either connection.",
 ["schedules", "inputs"], "every segmentation (down to single bytes) and delay of both directions of all connections, with any activity",
 "Tests write whole lines; partial reads and writes on every boundary are never produced.",
 ["libimap/read.c", "libimap/write.c", "libimap/scan.c", CI+"sc.c", DIR+"up.c", CI+"xkey.c", CI+"imap_client.c", CI+"imap_server.c"],
 [("incremental parser and writer", "libimap/"), ("upstream command sequencing", DIR+"up.c: up_advance_state")],
 EX+ENVN)

NA = []
# further simulators add their properties here
try:
    import props2
    props2.add(prop, NA)
except ImportError: pass

def main():
    from sims import PROPS
    with open(V + "/properties.jsonl", "w") as f:
        for p, _ in P: f.write(json.dumps(p) + "\n")
        for p, r in NA: f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd="bin/check.py " + p["id"], thorough_cmd="bin/check.py " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection, seeded search",
        level="exploration", level_note=note) for p, note in P if p["id"] in PROPS]
    na = [dict(property=p["id"], reason=r) for p, r in NA]
    have = {c["property"] for c in checks}
    for p, _ in P: assert p["id"] in have, p["id"]
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), (p["id"], f)
    m = dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the seams are the code's own stream, scheduler and connect interfaces, plus link-time wrapping (-Wl,--wrap) of libc calls in the simulators. Defect repairs are the 'fix:' commits, see known-findings.txt.")
    with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__": main()
