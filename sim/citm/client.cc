// The model mail clients: they speak IMAP to the citm, keep a strict view of
// what they were told, and hold the citm to it.
#include "world.h"

const char *const OP_NAMES[O_NOPS] = {
    "LOGIN","SELECT","EXAMINE","NOOP","CHECK","META","BODY","STORE","EXPUNGE",
    "CLOSE","COPY","APPEND","SEARCH","IDLE","LIST","LSUB","STATUS","CREATE",
    "DELETE","RENAME","SUB","UNSUB","LOGOUT","CAPA","UNSUP","GARBAGE","BADLOGIN",
    "DISC","FETCHMIX"
};

static bool needs_sel(int op){
    switch(op){
        case O_CHECK: case O_META: case O_BODY: case O_STORE: case O_EXPUNGE:
        case O_CLOSE: case O_COPY: case O_SEARCH: case O_IDLE: case O_FETCHMIX: return true;
    }
    return false;
}
// may be sent while other such commands are still running
static bool pipelinable(const Cmd &m){
    switch(m.op){
        case O_NOOP: case O_CAPA: return true;
        case O_STORE: case O_FETCHMIX: case O_BODY: return m.uidmode;
    }
    return false;
}
// RFC 3501 7.4.1: no EXPUNGE while only these run
static bool forbids_expunge(const Cmd &m){
    if(m.uidmode) return false;
    return m.op == O_META || m.op == O_STORE || m.op == O_SEARCH || m.op == O_FETCHMIX || m.op == O_BODY;
}

static string box_of(World *w, Client *c, int64_t n){
    // a mailbox the account has, by number; sometimes one it does not have
    vector<string> names;
    for(auto &b : c->acct->boxes) names.push_back(b.first);
    (void)w;
    return names[(uint64_t)n % names.size()];
}

void World::cli_connect(Client *c){
    gl_conn *g = nullptr;
    enter([&]{ g = gl_accept(citm); });
    if(!g) return;
    c->conn_no++;
    c->in = Framer();
    c->greeted = c->auth = c->bye = c->closed = c->sent_logout = c->want_logout = false;
    c->selected = false;
    c->v = View(); c->nv = View();
    c->queue.clear();
    c->inflight.clear();
    c->excused = false;
    Pipe *p = new_pipe(g, false);
    p->cl = c;
    c->pipe = p;
    cx->ev("client %d connects (%s)", c->id, c->acct->user.c_str());
    cx->count("client_conns");
}

void World::cli_disconnect(Client *c, bool rst){
    if(!c->pipe || c->closed) return;
    cx->ev("client %d %s", c->id, rst ? "resets" : "closes");
    c->closed = true;
    c->excused = true;
    if(rst){ c->pipe->reset = GL_RESET; c->pipe->peer_gone = true; c->pipe->to_citm.clear(); }
    else c->pipe->peer_eof = true;
    cli_closed(c, false);
}

// the conversation is over: whatever is unanswered stays unanswered
void World::cli_closed(Client *c, bool clean){
    (void)clean;
    c->closed = true;
    c->selected = false;
    c->inflight.clear();
    c->queue.clear();
}

void World::cli_queue(Client *c, Cmd m){ c->queue.push_back(std::move(m)); }

bool World::cli_can_send(Client *c){
    if(!c->pipe || c->closed || !c->greeted || c->bye) return false;
    if(c->pipe->peer_eof || c->pipe->reset || c->sent_logout) return false;
    // an appended literal waiting for its continuation
    for(auto &m : c->inflight){
        if(!m->lit.empty() && !m->lit_sent) return m->got_plus;
        if(m->op == O_IDLE) return m->got_plus && !m->done_sent && (!c->queue.empty() || settling);
    }
    if(c->inflight.empty()) cli_followups(c);
    if(c->queue.empty()) return false;
    if(c->inflight.empty()) return true;
    if(c->inflight.size() >= 4) return false;
    Cmd &n = c->queue.front();
    if(!pipelinable(n)) return false;
    for(auto &m : c->inflight) if(!pipelinable(*m)) return false;
    return true;
}

void World::cli_followups(Client *c){
    if(!c->selected || (!c->queue.empty() && c->queue.front().is_auto)) return;
    bool unknown = false;
    for(auto &e : c->v.e) if(!e.uid || (settling && e.flags < 0)) unknown = true;
    if(unknown){
        Cmd m; m.op = O_META; m.is_auto = true;
        c->queue.push_front(m);
        return;
    }
    if(plan.knob("nobody") && !settling) return;
    DnEpoch *ep = cli_epoch(c);
    for(auto &e : c->v.e) if(!ep->msgs[e.uid].complete()){
        Cmd m; m.op = O_BODY; m.is_auto = true; m.uidmode = true;
        c->queue.push_front(m);
        return;
    }
}

static string tagof(Client *c){ return strf("c%d.%d", c->id, ++c->tagn); }

// contiguous ranges of sequence numbers or uids
static string some_set(Client *c, Rng &r, bool uid, int64_t a, int64_t b, vector<uint32_t> &uids, bool &star){
    vector<size_t> idx;
    size_t n = c->v.e.size();
    size_t first = (uint64_t)a % n, cnt = 1 + (size_t)((uint64_t)b % 3);
    if(r.pct(25)){ first = 0; cnt = n; }
    for(size_t i = first; i < n && i < first + cnt; i++) if(c->v.e[i].uid) idx.push_back(i);
    vector<uint32_t> nums;
    for(size_t i : idx){
        uids.push_back(c->v.e[i].uid);
        nums.push_back(uid ? c->v.e[i].uid : (uint32_t)i + 1);
    }
    if(nums.empty()) return "";
    string s = setstr(nums);
    // the same set, said another way
    if(r.pct(15) && nums.size() > 1){
        s.clear();
        for(size_t i = nums.size(); i-- > 0;) s += (s.empty() ? "" : ",") + std::to_string(nums[i]);
    }
    if(r.pct(10) && idx.back() + 1 == n && idx.front() + nums.size() == n){
        s = std::to_string(nums.front()) + ":*";
        star = true;
    }
    return s;
}

static string flaglist(int f){ return "(" + flags_str(f) + ")"; }

static void add_writes(World *w, Client *c, Cmd &m){
    DnEpoch *ep = w->cli_epoch(c);
    for(uint32_t u : m.uids)
        ep->msgs[u].writes.push_back(WRec{c->id, w->step, ~0ull, m.setm, m.clrm, false, m.op != O_STORE});
    // "*" takes in messages this client has yet to hear of
    if(m.star) w->dnbox(c->acct, c->v.name).star_writes.push_back(WRec{c->id, w->step, ~0ull, m.setm, m.clrm, false, m.op != O_STORE});
}

// fill in text; false: makes no sense now
bool World::cli_build(Client *c, Cmd &m){
    Rng r(mix64((uint64_t)m.a * 1000003 + (uint64_t)m.b * 8191 + (uint64_t)m.c + (uint64_t)m.op));
    if(needs_sel(m.op) && !c->selected) return false;
    if(m.op != O_LOGIN && m.op != O_BADLOGIN && m.op != O_CAPA && m.op != O_LOGOUT && m.op != O_NOOP && !c->auth) return false;
    m.tag = tagof(c);
    m.start = step;
    string t = m.tag + " ";
    size_t n = c->v.e.size();
    switch(m.op){
        case O_LOGIN:
            if(r.pct(50)) m.text = t + "LOGIN " + c->acct->user + " " + c->acct->pass;
            else m.text = t + "LOGIN \"" + c->acct->user + "\" \"" + c->acct->pass + "\"";
            return !c->auth;
        case O_BADLOGIN:
            m.text = t + "LOGIN " + c->acct->user + " wrong" + std::to_string(m.a % 3);
            return !c->auth;
        case O_SELECT: case O_EXAMINE: {
            m.box = m.box.empty() ? box_of(this, c, m.a) : m.box;
            if(!m.is_auto && m.b % 20 == 19) m.box = "nosuchbox";
            DnBox &d = dnbox(c->acct, m.box);
            c->nv = View();
            c->nv.name = m.box;
            c->nv.ro = m.op == O_EXAMINE;
            c->nv.selected_at = step;
            for(auto &e : d.epochs) c->nv.floors[e.first] = e.second.full_max;
            m.text = t + (m.op == O_SELECT ? "SELECT " : "EXAMINE ") + (r.pct(50) ? istr(m.box) : "\"" + m.box + "\"");
            return true;
        }
        case O_NOOP: m.text = t + "NOOP"; return true;
        case O_CHECK: m.text = t + "CHECK"; return true;
        case O_CAPA: m.text = t + "CAPABILITY"; return true;
        case O_META: {
            size_t lo = 0, hi = 0;
            for(size_t i = 0; i < n; i++) if(!c->v.e[i].uid || !m.is_auto || (settling && c->v.e[i].flags < 0)){ if(!lo) lo = i + 1; hi = i + 1; }
            if(!lo) return false;
            m.a = (int64_t)lo; m.b = (int64_t)hi;
            m.text = t + strf("FETCH %zu:%zu (UID FLAGS)", lo, hi);
            return true;
        }
        case O_BODY: {
            DnEpoch *ep = cli_epoch(c);
            for(auto &e : c->v.e) if(e.uid && (!m.is_auto || !ep->msgs[e.uid].complete())) m.uids.push_back(e.uid);
            if(m.uids.empty()) return false;
            m.uidmode = true;
            m.text = t + "UID FETCH " + setstr(m.uids) + " (BODY.PEEK[] INTERNALDATE RFC822.SIZE)";
            return true;
        }
        case O_FETCHMIX: {
            if(!n) return false;
            m.uidmode = m.c & 1;
            string s = some_set(c, r, m.uidmode, m.a, m.b, m.uids, m.star);
            if(s.empty()) return false;
            static const char *what[] = {
                "(FLAGS)", "(BODY.PEEK[HEADER])", "(BODY.PEEK[TEXT])", "FULL", "(ENVELOPE)", "(BODYSTRUCTURE)",
                "(INTERNALDATE RFC822.SIZE)", "(BODY.PEEK[HEADER.FIELDS (SUBJECT X-ID)])", "BODY[]", "(RFC822.HEADER)",
                "(BODY[TEXT])", "ALL", "(UID)", "RFC822" };
            int k = (int)((uint64_t)(m.c >> 1) % 16);
            if(k < 14){ m.text = t + (m.uidmode ? "UID FETCH " : "FETCH ") + s + " " + what[k]; m.part = k; }
            else{
                m.poff = r.below(400); m.plen = 1 + r.below(300);
                m.part = 14;
                m.text = t + (m.uidmode ? "UID FETCH " : "FETCH ") + s + strf(" (BODY.PEEK[]<%zu.%zu>)", m.poff, m.plen);
            }
            if(k == 8 || k == 10 || k == 13){
                m.nonpeek = true;
                m.setm = F_SEEN;
                if(!c->v.ro) add_writes(this, c, m);
            }
            return true;
        }
        case O_STORE: {
            if(!n) return false;
            m.uidmode = m.c & 1;
            m.silent = m.c & 2;
            string s = some_set(c, r, m.uidmode, m.a, m.b, m.uids, m.star);
            if(s.empty()) return false;
            int f = (int)((uint64_t)(m.c >> 4) % 31) + 1;
            if(plan.knob("del_bias") && r.pct((unsigned)plan.knob("del_bias"))) f |= F_DELETED;
            int sign = (int)((uint64_t)(m.c >> 2) % 4);
            if(sign == 3) sign = 1;
            if(sign == 0){ m.setm = f; m.clrm = F_ALL & ~f; if(r.pct(10)){ f = 0; m.setm = 0; m.clrm = F_ALL; } }
            else if(sign == 1) m.setm = f;
            else m.clrm = f;
            m.text = t + (m.uidmode ? "UID STORE " : "STORE ") + s + " " + (sign == 0 ? "" : sign == 1 ? "+" : "-")
                + "FLAGS" + (m.silent ? ".SILENT " : " ") + flaglist(f);
            if(!c->v.ro) add_writes(this, c, m);
            return true;
        }
        case O_EXPUNGE: case O_CLOSE:
            m.text = t + (m.op == O_CLOSE ? "CLOSE" : "EXPUNGE");
            if(!c->v.ro) dnbox(c->acct, c->v.name).intents.push_back(Intent{c->id, step, c->v.selected_at, c->v.uidvld});
            return true;
        case O_COPY: {
            if(!n) return false;
            m.uidmode = m.c & 1;
            string s = some_set(c, r, m.uidmode, m.a, m.b, m.uids, m.star);
            if(s.empty()) return false;
            m.box2 = box_of(this, c, m.c >> 1);
            if((m.c >> 1) % 12 == 11) m.box2 = "nosuchbox";
            m.text = t + (m.uidmode ? "UID COPY " : "COPY ") + s + " " + istr(m.box2);
            DnEpoch *ep = cli_epoch(c);
            if(m.star){
                copy_unknown[{c->acct->idx, m.box2}]++;
                alert_copied.insert(c->acct->idx);
            }
            for(uint32_t u : m.uids){
                auto &dm = ep->msgs[u];
                if(dm.alert || !dm.xid) alert_copied.insert(c->acct->idx);
                if(dm.xid) copy_asked[std::make_tuple(c->acct->idx, m.box2, dm.xid)]++;
                else copy_unknown[{c->acct->idx, m.box2}]++;
            }
            return true;
        }
        case O_APPEND: {
            m.box = box_of(this, c, m.a);
            if(m.b % 12 == 11) m.box = "nosuchbox";
            Content *ct = make_content(c->acct, r.pct(50) ? K_PLAIN : K_NOSUBJ, m.c);
            // appended by us: what we see back is exactly what we sent
            ct->kind = K_ENC;
            by_raw.erase(h64(ct->raw));
            m.content = ct;
            m.lit = ct->plain;
            string at;
            if(r.pct(60)){ m.append_flags = (int)r.below(32); at += " " + flaglist(m.append_flags); }
            if(r.pct(60)){ m.append_date = rand_date(); at += " \"" + m.append_date + "\""; }
            m.text = t + "APPEND " + istr(m.box) + at + strf(" {%zu}", m.lit.size());
            app_asked[ct->xid]++;
            return true;
        }
        case O_SEARCH: {
            m.uidmode = m.c & 1;
            static const char *keys[] = {"ALL", "SEEN", "UNSEEN", "DELETED", "UNDELETED", "FLAGGED", "UNFLAGGED",
                "ANSWERED", "NOT SEEN", "OR DELETED FLAGGED", "DRAFT", "UNANSWERED UNDELETED"};
            m.part = (int)((uint64_t)(m.c >> 1) % 12);
            m.pre = c->v.e;
            m.text = t + (m.uidmode ? "UID SEARCH " : "SEARCH ") + keys[m.part];
            return true;
        }
        case O_IDLE: m.text = t + "IDLE"; return true;
        case O_LIST: m.text = t + (r.pct(50) ? "LIST \"\" *" : "LIST \"\" \"*\""); return true;
        case O_LSUB: m.text = t + "LSUB \"\" *"; return true;
        case O_STATUS:
            if(m.box.empty()) m.box = box_of(this, c, m.a);
            m.text = t + "STATUS " + istr(m.box) + " (MESSAGES UNSEEN UIDNEXT UIDVALIDITY)";
            return true;
        case O_CREATE:
            m.box = strf("C%d", (int)(m.a % 4));
            m.text = t + "CREATE " + istr(m.box);
            return true;
        case O_DELETE:
            m.box = box_of(this, c, m.a);
            if(m.box == "INBOX") return false;
            m.text = t + "DELETE " + istr(m.box);
            return true;
        case O_RENAME:
            m.box = box_of(this, c, m.a);
            m.box2 = strf("N%d", (int)(m.b % 3));
            if(m.box == "INBOX") return false;
            m.text = t + "RENAME " + istr(m.box) + " " + istr(m.box2);
            return true;
        case O_SUB: case O_UNSUB:
            m.box = box_of(this, c, m.a);
            m.text = t + (m.op == O_SUB ? "SUBSCRIBE " : "UNSUBSCRIBE ") + istr(m.box);
            return true;
        case O_LOGOUT: m.text = t + "LOGOUT"; return true;
        case O_UNSUP: {
            static const char *u[] = {"UNSELECT", "ENABLE CONDSTORE", "XKEYSYNC", "STARTTLS", "SELECT",
                "FETCH 999999 (FLAGS)", "STORE 999999 +FLAGS (\\Seen)", "UID EXPUNGE 1:*", "COPY 999999 INBOX"};
            m.part = (int)((uint64_t)m.a % 9);
            m.text = t + u[m.part];
            m.expect_bad = true;
            return m.part != 3 && !((m.part == 5 || m.part == 6 || m.part == 8 || m.part == 7) && !c->selected);
        }
    }
    return false;
}

void World::cli_send(Client *c){
    for(auto &m : c->inflight){
        if(!m->lit.empty() && !m->lit_sent){
            m->lit_sent = true;
            c->pipe->to_citm += m->lit + "\r\n";
            cx->ev("client %d sends literal (%zu)", c->id, m->lit.size());
            return;
        }
        if(m->op == O_IDLE){
            m->done_sent = true;
            c->pipe->to_citm += "DONE\r\n";
            cx->ev("client %d DONE", c->id);
            return;
        }
    }
    if(c->queue.empty()) return;
    auto m = std::make_unique<Cmd>(std::move(c->queue.front()));
    c->queue.pop_front();
    if(!cli_build(c, *m)) return;
    cx->ev("client %d sends %s", c->id, quote(m->text, 100).c_str());
    c->pipe->to_citm += m->text + "\r\n";
    c->ncmd++;
    if(m->op == O_LOGOUT) c->sent_logout = true;
    if(m->op == O_DELETE || m->op == O_RENAME) box_gone = true;
    cx->count((string("op_") + OP_NAMES[m->op]).c_str());
    if(m->op == O_STORE && m->uids.size()) cx->count("flag_writes");
    c->inflight.push_back(std::move(m));
}

void World::cli_bytes(Client *c, const string &b){
    if(c->closed) return;
    c->in.buf += b;
    string line;
    while(!c->closed && c->in.next(line)){
        cx->ev("client %d gets %s", c->id, quote(line, 140).c_str());
        cli_line(c, line);
    }
}

void World::cli_line(Client *c, const string &l){
    if(l.compare(0, 2, "* ") == 0) return cli_untagged(c, l);
    if(l.compare(0, 1, "+") == 0){
        bool used = false;
        for(auto &m : c->inflight){
            if(!m->lit.empty() && !m->got_plus){ m->got_plus = true; used = true; break; }
            if(m->op == O_IDLE && !m->got_plus){ m->got_plus = true; used = true; break; }
        }
        if(!used) cx->fail("C08", "client got a continuation it did not ask for: %s", quote(l).c_str());
        return;
    }
    size_t sp = l.find(' ');
    string tag = l.substr(0, sp), rest = sp == string::npos ? "" : l.substr(sp + 1);
    size_t sp2 = rest.find(' ');
    string st = rest.substr(0, sp2);
    rest = sp2 == string::npos ? "" : rest.substr(sp2 + 1);
    if(st != "OK" && st != "NO" && st != "BAD"){
        cx->fail("C08", "client got a line that is no IMAP response: %s", quote(l).c_str());
        return;
    }
    cli_tagged(c, tag, st, rest);
}

static bool eval_search(int k, int f){
    bool s = f & F_SEEN, d = f & F_DELETED, g = f & F_FLAGGED, a = f & F_ANSWERED, dr = f & F_DRAFT;
    switch(k){
        case 0: return true; case 1: return s; case 2: return !s; case 3: return d; case 4: return !d;
        case 5: return g; case 6: return !g; case 7: return a; case 8: return !s; case 9: return d || g;
        case 10: return dr; case 11: return !a && !d;
    }
    return false;
}

void World::cli_tagged(Client *c, const string &tag, const string &st, const string &rest){
    size_t at = 0;
    for(; at < c->inflight.size(); at++) if(c->inflight[at]->tag == tag) break;
    if(at == c->inflight.size()){
        cx->fail("C08", "client got a tagged response for a command it does not have in flight: %s %s", tag.c_str(), st.c_str());
        return;
    }
    if(at) cx->fail("C08", "client got the answer to %s before that to the earlier %s", tag.c_str(), c->inflight[0]->tag.c_str());
    unique_ptr<Cmd> mp = std::move(c->inflight[at]);
    c->inflight.erase(c->inflight.begin() + at);
    Cmd &m = *mp;
    bool ok = st == "OK";
    bool clean = !excused(c);
    cx->count(ok ? "tagged_ok" : "tagged_notok");
    if(m.op == O_IDLE && ok && !m.done_sent) cx->fail("C08", "IDLE ended before DONE");
    if(!m.lit.empty() && !m.lit_sent && ok) cx->fail("C08", "APPEND answered OK before its message was sent");
    switch(m.op){
        case O_LOGIN:
            if(ok) c->auth = true;
            else if(clean) cx->fail("C13", "a correct LOGIN was refused: %s %s", st.c_str(), rest.c_str());
            break;
        case O_BADLOGIN:
            if(ok) cx->fail("C13", "a LOGIN with a wrong password was accepted");
            break;
        case O_SELECT: case O_EXAMINE: {
            c->selected = false;
            c->v = View();
            if(!ok){
                if(clean && m.box != "nosuchbox" && c->acct->box(m.box) && c->acct->box(m.box)->names.count(m.box))
                    cx->fail("C08", "%s of an existing mailbox was refused: %s %s", OP_NAMES[m.op], st.c_str(), rest.c_str());
                break;
            }
            if(m.box == "nosuchbox"){ cx->fail("C08", "SELECT of a mailbox that does not exist was accepted"); break; }
            if(!c->nv.got_exists || !c->nv.uidvld || !c->nv.uidnext){
                cx->fail("C02", "%s answered OK without EXISTS, UIDVALIDITY and UIDNEXT", OP_NAMES[m.op]);
                break;
            }
            if(m.nunseen > 1) cx->fail("C02", "%s reported the first unseen message %d times", OP_NAMES[m.op], m.nunseen);
            bool ro = strcasestr(rest.c_str(), "[READ-ONLY]");
            if(ro != (m.op == O_EXAMINE)) cx->fail("C10", "%s answered with %s", OP_NAMES[m.op], rest.c_str());
            c->v = c->nv;
            c->selected = true;
            c->last_box = m.box;
            DnBox &d = dnbox(c->acct, m.box);
            bool fresh = !d.epochs.count(c->v.uidvld);
            DnEpoch &ep = d.epochs[c->v.uidvld];
            if(fresh){
                ep.uidvld = c->v.uidvld;
                ep.first_seen = step;
                // new values come from the clock
                if(!clock_went_back && c->v.uidvld < d.last_uidvld && c->v.selected_at > d.epochs[d.last_uidvld].first_seen)
                    cx->fail("C03", "UIDVALIDITY of %s went down from %u to %u", m.box.c_str(), d.last_uidvld, c->v.uidvld);
                if(d.last_uidvld) cx->count("uidvld_changes_seen");
            }else if(c->v.uidvld != d.last_uidvld && ep.first_seen < d.epochs[d.last_uidvld].first_seen && c->v.selected_at > d.epochs[d.last_uidvld].first_seen)
                cx->fail("C03", "UIDVALIDITY of %s went back from %u to %u", m.box.c_str(), d.last_uidvld, c->v.uidvld);
            if(fresh) d.last_uidvld = c->v.uidvld;
            if(c->v.floor && c->v.uidnext <= c->v.floor)
                cx->fail("C03", "UIDNEXT %u of %s, but uid %u was already given out", c->v.uidnext, m.box.c_str(), c->v.floor);
            break;
        }
        case O_META: case O_BODY: case O_FETCHMIX: case O_STORE: {
            if(!ok){
                if(m.op == O_STORE || m.nonpeek){
                    DnEpoch *ep = cli_epoch(c);
                    if(ep) for(uint32_t u : m.uids) for(auto &w : ep->msgs[u].writes)
                        if(w.sess == c->id && w.start == m.start) w.refused = true;
                }
                if(m.op == O_STORE && c->v.ro){
                    if(st != "NO") cx->fail("C10", "STORE in an EXAMINEd mailbox answered %s", st.c_str());
                }else if(clean && !uidvld_changed)
                    cx->fail("C08", "valid %s refused: %s %s", OP_NAMES[m.op], st.c_str(), rest.c_str());
                break;
            }
            if(m.op == O_STORE && c->v.ro){ cx->fail("C10", "STORE in an EXAMINEd mailbox was accepted"); break; }
            DnEpoch *ep = cli_epoch(c);
            if(!ep) break;
            if(m.op == O_META && m.is_auto){
                for(size_t i = (size_t)m.a - 1; i < (size_t)m.b && i < c->v.e.size(); i++)
                    if(!c->v.e[i].uid) cx->fail("C02", "FETCH %lld:%lld answered OK but message %zu was not sent", (long long)m.a, (long long)m.b, i + 1);
            }
            if(m.op == O_BODY || m.op == O_FETCHMIX){
                for(uint32_t u : m.uids){
                    if(m.got.count(u)) continue;
                    for(auto &e : c->v.e) if(e.uid == u){
                        if(!disk_faulty){
                            cx->fail("C02", "FETCH of uid %u, which the client was never told is gone, sent nothing", u);
                            cx->fail("C01", "FETCH of uid %u, which the client was never told is gone, sent nothing", u);
                        }else if(m.op == O_BODY) ep->msgs[u].have_body = ep->msgs[u].have_date = true; // do not ask for ever
                    }
                }
            }
            if(m.op == O_STORE || m.nonpeek){
                for(uint32_t u : m.uids) for(auto &w : ep->msgs[u].writes)
                    if(w.sess == c->id && w.start == m.start) w.end = step;
                if(m.op == O_STORE && !m.silent){
                    // a flag response is due for every message still there
                    for(uint32_t u : m.uids) if(!m.got.count(u)){
                        // gone meanwhile, but STORE may not say so
                        auto &dm = ep->msgs[u];
                        Box *bx = c->acct->box(c->v.name);
                        if(!bx || (!dm.alert && (!dm.xid || any_died(bx, dm.xid, c->acct)))) continue;
                        for(auto &e : c->v.e) if(e.uid == u){
                            int f = e.flags;
                            if(f >= 0 && ((f | m.setm) & ~m.clrm) != f)
                                cx->fail("C07", "STORE was acknowledged, but the client's view of uid %u still has (%s)", u, flags_str(f).c_str());
                        }
                    }
                }
                if(m.silent) for(uint32_t u : m.uids) for(auto &e : c->v.e)
                    if(e.uid == u && !m.got.count(u) && e.flags >= 0) e.flags = (e.flags | m.setm) & ~m.clrm;
            }
            break;
        }
        case O_EXPUNGE: case O_CLOSE:
            if(m.op == O_EXPUNGE && c->v.ro){
                if(ok) cx->fail("C10", "EXPUNGE in an EXAMINEd mailbox was accepted");
                break;
            }
            if(!ok){ if(clean && !uidvld_changed) cx->fail("C08", "valid %s refused: %s %s", OP_NAMES[m.op], st.c_str(), rest.c_str()); }
            else if(!c->v.ro) ora_expunge_acked(c, m);
            if(m.op == O_CLOSE && ok){ c->selected = false; c->v = View(); }
            break;
        case O_COPY: {
            if(!ok){
                // the messages may be gone already, with the client yet to hear of it
                DnEpoch *ep = cli_epoch(c);
                Box *src = c->acct->box(c->v.name);
                bool there = ep && src;
                if(there) for(uint32_t u : m.uids){
                    auto &dm = ep->msgs[u];
                    if(!dm.xid || (!dm.alert && any_died(src, dm.xid, c->acct))) there = false;
                }
                if(there && clean && !uidvld_changed && m.box2 != "nosuchbox" && c->acct->box(m.box2) && !cx->stats.count("dev_boxdelete") && !cx->stats.count("op_RENAME") && !cx->stats.count("op_DELETE"))
                    cx->fail("C12", "valid COPY refused: %s %s", st.c_str(), rest.c_str());
                break;
            }
            if(m.box2 == "nosuchbox"){
                if(nobox_at >= m.start) cx->fail("C12", "COPY to a mailbox that does not exist was accepted");
                else cx->finding("copy-local-nobox", "C12", "COPY of messages that only the citm has, to a mailbox that does not exist, was accepted");
                break;
            }
            DnEpoch *ep = cli_epoch(c);
            Box *src = c->acct->box(c->v.name);
            if(!ep || !src) break;
            for(uint32_t u : m.uids){
                auto &dm = ep->msgs[u];
                if(!dm.xid || dm.alert) continue;
                auto key = std::make_tuple(c->acct->idx, m.box2, dm.xid);
                // the message was on the server the whole time
                bool there = false;
                for(auto s : src->msgs) if(s->c->xid == dm.xid && s->born < m.start) there = true;
                if(!there || any_died(src, dm.xid, c->acct)) continue;
                copy_ok[key]++;
                if(copy_done[key] < copy_ok[key] && !uidvld_changed)
                    cx->fail("C12", "COPY of uid %u (xid %llu) to %s was acknowledged but did not happen", u, (unsigned long long)dm.xid, m.box2.c_str());
            }
            break;
        }
        case O_APPEND:
            if(ok){
                if(m.box == "nosuchbox") cx->fail("C12", "APPEND to a mailbox that does not exist was accepted");
                app_ok[m.content->xid]++;
                if(app_done[m.content->xid] != 1)
                    cx->fail("C12", "APPEND was acknowledged and the server has it %d times", app_done[m.content->xid]);
                for(auto &b : c->acct->boxes) for(auto s : b.second->msgs) if(s->c == m.content && s->born >= m.start){
                    if(s->init_flags != m.append_flags) cx->fail("C12", "APPEND with flags (%s) arrived with (%s)", flags_str(m.append_flags).c_str(), flags_str(s->init_flags).c_str());
                    if(!m.append_date.empty() && !same_date(s->date, m.append_date)) cx->fail("C12", "APPEND with date %s arrived with %s", m.append_date.c_str(), s->date.c_str());
                    if(b.first != m.box && !cx->stats.count("op_RENAME") && !cx->stats.count("dev_rename") && copy_done.empty()) cx->fail("C12", "APPEND to %s arrived in %s", m.box.c_str(), b.first.c_str());
                }
            }else if(clean && m.box != "nosuchbox" && c->acct->box(m.box) && !cx->stats.count("op_RENAME") && !cx->stats.count("dev_boxdelete") && !cx->stats.count("op_DELETE"))
                cx->fail("C12", "valid APPEND refused: %s %s", st.c_str(), rest.c_str());
            break;
        case O_SEARCH: {
            if(!ok){ if(clean) cx->fail("C08", "valid SEARCH refused: %s %s", st.c_str(), rest.c_str()); break; }
            if(!m.got_search){ cx->fail("C17", "SEARCH answered OK without a SEARCH response"); break; }
            set<uint32_t> have(m.search.begin(), m.search.end());
            for(size_t i = 0; i < m.pre.size(); i++){
                auto &e = m.pre[i];
                if(!e.uid || e.flags < 0) continue;
                bool got = have.count(m.uidmode ? e.uid : (uint32_t)i + 1);
                have.erase(m.uidmode ? e.uid : (uint32_t)i + 1);
                int post = -1;
                bool still = false;
                for(auto &x : c->v.e) if(x.uid == e.uid){ post = x.flags; still = true; }
                // (a change asked for is lost if the message is expunged)
                if(cli_epoch(c) && c->acct->box(c->v.name) && any_died(c->acct->box(c->v.name), cli_epoch(c)->msgs[e.uid].xid, c->acct)) continue;
                if(got != eval_search(m.part, e.flags) && (!still ? got : got != eval_search(m.part, post)) && !maybe_ghost(c, e.uid))
                    cx->fail("C17", "%s: message uid %u with (%s) was %s", m.text.c_str(), e.uid, flags_str(e.flags).c_str(), got ? "found" : "not found");
            }
            for(uint32_t u : have){
                bool known = false;
                for(auto &e : c->v.e) if(m.uidmode && (e.uid == u || !e.uid)) known = true;
                for(auto &e : m.pre) if(!e.uid || e.flags < 0) known = true;
                if(!m.uidmode && u <= c->v.e.size()) known = true;
                if(!known) cx->fail("C17", "%s found message %u, which is not in the mailbox", m.text.c_str(), u);
            }
            break;
        }
        case O_STATUS:
            if(ok && !m.got_status) cx->fail("C17", "STATUS answered OK without a STATUS response");
            if(!ok && clean && c->acct->box(m.box) && !cx->stats.count("op_RENAME")) cx->fail("C08", "valid STATUS refused: %s %s", st.c_str(), rest.c_str());
            if(ok && m.was_auto_settle){
                Box *b = c->acct->box(m.box);
                DnBox &d = dnbox(c->acct, m.box);
                if(b && d.epochs.count(m.status["UIDVALIDITY"])){
                    DnEpoch &ep = d.epochs[m.status["UIDVALIDITY"]];
                    if(m.status["UIDNEXT"] <= ep.full_max) cx->fail("C17", "STATUS says UIDNEXT %u, but uid %u is in use", m.status["UIDNEXT"], ep.full_max);
                }
                if(d.last_uidvld && m.status["UIDVALIDITY"] != d.last_uidvld)
                    cx->fail("C17", "STATUS says UIDVALIDITY %u, SELECT said %u", m.status["UIDVALIDITY"], d.last_uidvld);
                if(m.a >= 0 && (int64_t)m.status["MESSAGES"] != m.a)
                    cx->fail("C17", "STATUS says %u messages in %s, SELECT just said %lld", m.status["MESSAGES"], m.box.c_str(), (long long)m.a);
                if(m.b >= 0 && (int64_t)m.status["UNSEEN"] != m.b)
                    cx->fail("C17", "STATUS says %u unseen in %s, a FETCH just said %lld", m.status["UNSEEN"], m.box.c_str(), (long long)m.b);
            }
            break;
        case O_LIST:
            if(ok && settling && !cx->stats.count("excused_list")){
                for(auto &b : c->acct->boxes) if(!m.listed.count(b.first))
                    cx->fail("C17", "LIST does not show mailbox %s", b.first.c_str());
                for(auto &n : m.listed) if(!c->acct->box(n))
                    cx->fail("C17", "LIST shows mailbox %s, which does not exist", n.c_str());
            }
            break;
        case O_UNSUP:
            if(ok && (m.part <= 2 || m.part == 4 || m.part == 7)) cx->fail("C08", "%s was accepted", m.text.c_str());
            // a rejected SELECT may deselect; ours never parses
            break;
        case O_LOGOUT:
            if(!ok || !c->bye) cx->fail("C08", "LOGOUT answered with %s%s", st.c_str(), c->bye ? "" : " and no BYE");
            break;
        default:
            if(!ok && clean && (m.op == O_NOOP || m.op == O_CHECK || m.op == O_IDLE || m.op == O_CAPA))
                cx->fail("C08", "valid %s refused: %s %s", OP_NAMES[m.op], st.c_str(), rest.c_str());
            break;
    }
}

void World::learn_body(Client *c, DnBox &db, DnEpoch &ep, DnMsg &m, const string &body){
    (void)db;
    uint64_t h = h64(body);
    if(m.have_body && m.size && (m.bodyhash != h || m.size != body.size())){
        cx->fail("C03", "%s uid %u (uidvalidity %u) had another body before", c->v.name.c_str(), m.uid, ep.uidvld);
        return;
    }
    bool first = !m.have_body;
    m.have_body = true;
    m.bodyhash = h;
    m.size = body.size();
    if(!first) return;
    cx->count("bodies_read");
    // a new-device alert is made up by the citm itself
    if(body.find("Subject: New Device Detected") != string::npos && body.find("X-Id: ") == string::npos){
        m.alert = true;
        if(strcasecmp(c->v.name.c_str(), "INBOX") && !alert_copied.count(c->acct->idx)) cx->fail("C15", "a new-device alert appeared in %s", c->v.name.c_str());
        cx->count("alerts_seen");
        // which key?
        string low = body;
        for(auto &ch : low) ch = tolower(ch);
        for(auto &k : keypool){
            string hx = codec::hex(k->fpr), colon;
            for(size_t i = 0; i < hx.size(); i += 2) colon += (i ? ":" : "") + hx.substr(i, 2);
            if(low.find(hx) != string::npos || low.find(colon) != string::npos) m.alert_fpr = k->fpr;
        }
        if(m.alert_fpr.empty()) cx->fail("C15", "a new-device alert names no known key: %s", quote(body, 200).c_str());
        else if(!c->acct->must_alert.count(m.alert_fpr) && !c->acct->may_alert.count(m.alert_fpr))
            cx->fail("C15", "a new-device alert for %s, which was never added later", m.alert_fpr == c->acct->mykey->fpr ? "the own key" : "a key");
        return;
    }
    Content *ct = identify(body);
    if(!ct){
        cx->fail("C19", "%s uid %u shows a message nobody sent: %s", c->v.name.c_str(), m.uid, quote(body, 160).c_str());
        cx->fail("C01", "%s uid %u shows a message nobody sent: %s", c->v.name.c_str(), m.uid, quote(body, 160).c_str());
        return;
    }
    m.xid = ct->xid;
    // not another user's
    bool mine = false;
    for(auto &s : msgpool) if(s->c == ct && s->acct == c->acct->idx) mine = true;
    if(!mine) cx->fail("C13", "%s sees message %llu of another user", c->acct->user.c_str(), (unsigned long long)ct->xid);
    string why;
    if(!body_ok(ct, body, why)){
        cx->fail("C19", "%s uid %u: %s", c->v.name.c_str(), m.uid, why.c_str());
        if(ct->kind != K_ENC) cx->fail("C16", "%s uid %u: %s", c->v.name.c_str(), m.uid, why.c_str());
    }
    if(ct->kind == K_NOT4ME) cx->fail("C16", "a message not encrypted to this device was shown");
}

void World::cli_fetch(Client *c, uint32_t seq, const Tok &attrs, const string &l){
    View *v = &c->v;
    if(!c->selected){ cx->fail("C02", "FETCH response with no mailbox selected: %s", quote(l, 60).c_str()); return; }
    if(seq < 1 || seq > v->e.size()){
        cx->fail("C02", "FETCH response for message %u of %zu", seq, v->e.size());
        return;
    }
    VEnt &e = v->e[seq - 1];
    DnBox &db = dnbox(c->acct, v->name);
    DnEpoch &ep = db.epochs[v->uidvld];
    // UID first: it says which message this is
    for(size_t i = 0; i + 1 < attrs.l.size(); i += 2){
        if(!attrs.l[i].is("UID")) continue;
        uint32_t u = strtoul(attrs.l[i+1].s.c_str(), 0, 10);
        if(e.uid && e.uid != u){
            cx->fail("C02", "message %u of %s was uid %u and is now uid %u", seq, v->name.c_str(), e.uid, u);
            return;
        }
        if(e.uid) break;
        uint32_t lo = 0, hi = ~0u;
        for(size_t k = 0; k < seq - 1; k++) if(v->e[k].uid) lo = std::max(lo, v->e[k].uid);
        for(size_t k = seq; k < v->e.size(); k++) if(v->e[k].uid) hi = std::min(hi, v->e[k].uid);
        if(u <= lo || u >= hi){
            cx->fail("C02", "uids of %s are not ascending: %u at message %u", v->name.c_str(), u, seq);
            cx->fail("C03", "uids of %s are not ascending: %u at message %u", v->name.c_str(), u, seq);
            return;
        }
        e.uid = u;
        auto it = ep.msgs.find(u);
        if(it == ep.msgs.end()){
            if(u <= v->floor)
                cx->fail("C03", "a message with uid %u appeared in %s after a client had seen the whole mailbox up to uid %u", u, v->name.c_str(), v->floor);
            if(v->full && u < v->uidnext)
                cx->fail("C03", "new message got uid %u below the announced UIDNEXT %u", u, v->uidnext);
            ep.msgs[u].uid = u;
            ep.msgs[u].first_seen = step;
        }else{
            it->second.uid = u;
            if(it->second.expunged_at && it->second.expunged_at < v->selected_at){
                cx->fail("C06", "uid %u of %s was reported expunged, and is back", u, v->name.c_str());
                cx->fail("C03", "uid %u of %s was reported expunged, and is back", u, v->name.c_str());
            }
        }
        break;
    }
    bool full = true;
    for(auto &x : v->e) if(!x.uid) full = false;
    if(full){
        v->full = true;
        if(!v->e.empty()) ep.full_max = std::max(ep.full_max, v->e.back().uid);
    }
    // commands are answered in order: what arrives now belongs to the oldest
    Cmd *bodycmd = nullptr;
    if(!c->inflight.empty()){
        Cmd *m = c->inflight.front().get();
        if((m->op == O_BODY || m->op == O_FETCHMIX || m->op == O_STORE || m->op == O_META) && e.uid &&
           std::find(m->uids.begin(), m->uids.end(), e.uid) != m->uids.end()){
            bool hasbody = m->op != O_BODY;
            for(size_t i = 0; i < attrs.l.size(); i += 2) if(attrs.l[i].is("BODY[]")) hasbody = true;
            if(hasbody) m->got.insert(e.uid);
            if(m->op == O_FETCHMIX) bodycmd = m;
        }
    }
    for(size_t i = 0; i + 1 < attrs.l.size(); i += 2){
        const Tok &k = attrs.l[i], &x = attrs.l[i+1];
        if(k.is("FLAGS")){
            int f = flags_of(x) & ~F_RECENT;
            e.flags = f;
            e.since = step;
            if(e.uid) ora_read_flags(c, &ep, e.uid, f);
        }
        if(!e.uid) continue;
        DnMsg &dm = ep.msgs[e.uid];
        if(k.is("INTERNALDATE")){
            if(!dm.date.empty() && dm.date != x.s){
                cx->fail("C03", "INTERNALDATE of %s uid %u changed from %s to %s", v->name.c_str(), e.uid, dm.date.c_str(), x.s.c_str());
                conv_fail("C19", "INTERNALDATE of %s uid %u changed from %s to %s", v->name.c_str(), e.uid, dm.date.c_str(), x.s.c_str());
            }
            dm.date = x.s;
            dm.have_date = true;
        }
        if(k.is("RFC822.SIZE")){
            size_t n = strtoul(x.s.c_str(), 0, 10);
            if(dm.size && n != dm.size) cx->fail("C19", "RFC822.SIZE of %s uid %u is %zu, its body has %zu bytes", v->name.c_str(), e.uid, n, dm.size);
            for(size_t j = 0; j + 1 < attrs.l.size(); j += 2)
                if(attrs.l[j].is("BODY[]") && attrs.l[j+1].s.size() != n)
                    cx->fail("C19", "RFC822.SIZE of %s uid %u is %zu, its body has %zu bytes", v->name.c_str(), e.uid, n, attrs.l[j+1].s.size());
        }
        if(k.is("BODY[]") || k.is("RFC822")) learn_body(c, db, ep, dm, x.s);
        if(!dm.xid || dm.alert) continue;
        Content *ct = contents.count(dm.xid) ? contents[dm.xid].get() : nullptr;
        if(!ct || ct->kind != K_ENC) continue;
        size_t hl = ct->plain.find("\r\n\r\n") + 4;
        if((k.is("BODY[HEADER]") || k.is("RFC822.HEADER")) && x.s != ct->plain.substr(0, hl))
            cx->fail("C19", "%s uid %u: header differs: %s", v->name.c_str(), e.uid, quote(x.s, 100).c_str());
        if(k.is("BODY[TEXT]") && x.s != ct->plain.substr(hl))
            cx->fail("C19", "%s uid %u: text differs: %s", v->name.c_str(), e.uid, quote(x.s, 100).c_str());
        if(k.s.compare(0, 7, "BODY[]<") == 0){
            size_t off = strtoul(k.s.c_str() + 7, 0, 10);
            string want;
            size_t len = bodycmd ? bodycmd->plen : 0;
            if(off < ct->plain.size()) want = ct->plain.substr(off, len);
            if(bodycmd && bodycmd->part == 14 && off == bodycmd->poff && x.s != want)
                cx->fail("C19", "%s uid %u: bytes %zu+%zu differ: got %zu", v->name.c_str(), e.uid, off, len, x.s.size());
        }
    }
}

void World::cli_untagged(Client *c, const string &l){
    Parser ps(l, 2);
    vector<Tok> t = ps.all();
    if(t.empty()){ cx->fail("C08", "empty untagged response"); return; }
    Cmd *sel = nullptr;
    for(auto &m : c->inflight) if(m->op == O_SELECT || m->op == O_EXAMINE) sel = m.get();
    View *v = sel ? &c->nv : &c->v;
    const string &w = t[0].s;
    if(w == "OK" || w == "NO" || w == "BAD" || w == "PREAUTH"){
        if(!c->greeted){
            if(w != "OK") cx->fail("C08", "greeting is %s", w.c_str());
            c->greeted = true;
            return;
        }
        if(t.size() > 1){
            const string &code = t[1].s;
            auto num = [&](const char *k)->bool{ return code.compare(0, strlen(k), k) == 0; };
            // codes with a space come out as one atom: [ ... ] is one token
            size_t p = code.find(' ');
            uint32_t n = p == string::npos ? 0 : strtoul(code.c_str() + p, 0, 10);
            if(sel){
                if(num("[UIDVALIDITY ")){
                    v->uidvld = n;
                    v->floor = v->floors.count(n) ? v->floors[n] : 0;
                }
                if(num("[UIDNEXT ")) v->uidnext = n;
                if(num("[UNSEEN ")){ sel->nunseen++; v->unseen = n; }
            }
        }
        return;
    }
    if(w == "BYE"){
        c->bye = true;
        c->greeted = true;
        if(!c->sent_logout && !excused(c) && !canceling)
            cx->fail("C08", "the citm hung up on a client for no reason: %s", quote(l).c_str());
        return;
    }
    if(!c->greeted){ cx->fail("C08", "no greeting: %s", quote(l).c_str()); return; }
    if(w == "FLAGS" || w == "CAPABILITY" || w == "ENABLED") return;
    if(w == "SEARCH"){
        for(auto &m : c->inflight) if(m->op == O_SEARCH && !m->got_search){
            m->got_search = true;
            for(size_t i = 1; i < t.size(); i++) if(t[i].t == Tok::ATOM) m->search.push_back(strtoul(t[i].s.c_str(), 0, 10));
            return;
        }
        cx->fail("C08", "SEARCH response nobody asked for");
        return;
    }
    if(w == "STATUS"){
        for(auto &m : c->inflight) if(m->op == O_STATUS && !m->got_status){
            m->got_status = true;
            if(t.size() >= 3) for(size_t i = 0; i + 1 < t[2].l.size(); i += 2) m->status[t[2].l[i].s] = strtoul(t[2].l[i+1].s.c_str(), 0, 10);
            return;
        }
        cx->fail("C08", "STATUS response nobody asked for");
        return;
    }
    if(w == "LIST" || w == "LSUB"){
        for(auto &m : c->inflight) if(m->op == O_LIST || m->op == O_LSUB){
            if(t.size() >= 4){
                bool nosel = false;
                for(auto &x : t[1].l) if(!strcasecmp(x.s.c_str(), "\\Noselect")) nosel = true;
                if(!nosel) m->listed.insert(t[3].s);
            }
            return;
        }
        cx->fail("C08", "LIST response nobody asked for");
        return;
    }
    if(isdigit((unsigned char)w[0]) && t.size() >= 2){
        uint32_t n = strtoul(w.c_str(), 0, 10);
        if(t[1].is("EXISTS")){
            if(sel){ v->got_exists = true; v->e.assign(n, VEnt()); return; }
            if(!c->selected){ cx->fail("C02", "EXISTS with no mailbox selected"); return; }
            if(n < v->e.size()){ cx->fail("C02", "EXISTS %u while the client was told of %zu messages", n, v->e.size()); return; }
            v->e.resize(n);
            return;
        }
        if(t[1].is("RECENT")) return;
        if(t[1].is("EXPUNGE")){
            if(!c->selected || sel){ cx->fail("C02", "EXPUNGE with no mailbox selected"); return; }
            if(n < 1 || n > v->e.size()){ cx->fail("C02", "EXPUNGE of message %u of %zu", n, v->e.size()); return; }
            if(c->inflight.empty()) cx->fail("C02", "EXPUNGE while no command was running");
            bool all = !c->inflight.empty();
            for(auto &m : c->inflight) if(!forbids_expunge(*m)) all = false;
            if(all) cx->fail("C02", "EXPUNGE sent during %s", OP_NAMES[c->inflight[0]->op]);
            uint32_t u = v->e[n-1].uid;
            if(u){
                DnEpoch *ep = cli_epoch(c);
                auto &dm = ep->msgs[u];
                dm.uid = u;
                if(!dm.expunged_at) dm.expunged_at = step;
                cx->count("expunges_told");
                // it must be gone from the server, too
                if(dm.xid && !dm.alert){
                    Box *b = c->acct->box(v->name);
                    if(b){
                        auto live = live_by_xid(b, dm.xid);
                        auto inst = instances(c->acct, b->names, dm.xid);
                        if(live.size() == 1 && inst.size() == 1 && !uidvld_changed)
                            cx->fail("C01", "client was told that uid %u of %s is expunged; the server still has it", u, v->name.c_str());
                    }
                }
            }
            v->e.erase(v->e.begin() + (n - 1));
            return;
        }
        if(t[1].is("FETCH") && t.size() >= 3){ return cli_fetch(c, n, t[2], l); }
    }
    cx->fail("C08", "untagged response the client cannot understand: %s", quote(l).c_str());
}

// item sess <gap> <client> <op> <a> <b> <c>
void World::sess_op(const Item &it){
    Client *c = clients[(uint64_t)it.arg(1) % clients.size()].get();
    int op = (int)((uint64_t)it.arg(2) % O_NOPS);
    if(canceling || !citm) return;
    if(op == O_DISC || op == O_GARBAGE){
        if(op == O_DISC) cli_disconnect(c, it.arg(3) % 2);
        return;
    }
    if(!c->pipe || c->closed || c->bye || c->sent_logout){
        // the old connection may still be closing; this is a new one
        if(c->pipe) c->pipe->cl = nullptr;
        if(c->pipe && !c->pipe->dead) c->pipe->peer_eof = true;
        cli_connect(c);
        if(!c->pipe) return;
    }
    bool queued_login = c->auth, will_sel = c->selected;
    for(auto &m : c->queue){ if(m.op == O_LOGIN) queued_login = true; if(m.op == O_SELECT || m.op == O_EXAMINE) will_sel = true; }
    for(auto &m : c->inflight){ if(m->op == O_LOGIN) queued_login = true; if(m->op == O_SELECT || m->op == O_EXAMINE) will_sel = true; }
    if(op == O_BADLOGIN && queued_login) return;
    if(!queued_login && op != O_BADLOGIN && op != O_CAPA && op != O_LOGIN && op != O_NOOP && op != O_LOGOUT){
        Cmd l; l.op = O_LOGIN; l.a = it.arg(3);
        cli_queue(c, l);
    }
    if(op == O_LOGIN && queued_login) op = O_NOOP;
    if(needs_sel(op) && !will_sel){
        Cmd s; s.op = O_SELECT; s.is_auto = true;
        s.box = c->last_box.empty() || !c->acct->box(c->last_box) ? "INBOX" : c->last_box;
        cli_queue(c, s);
    }
    if(c->queue.size() > 12) return;
    Cmd m;
    m.op = op; m.a = it.arg(3); m.b = it.arg(4); m.c = it.arg(5);
    // known before sending, so that pipelining can be decided
    m.uidmode = (op == O_STORE || op == O_FETCHMIX || op == O_COPY || op == O_SEARCH) ? (m.c & 1) : op == O_BODY;
    cli_queue(c, m);
}
