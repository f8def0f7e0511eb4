// What must be true, and why: justification of every write that reaches the
// server, of everything a client reads, and convergence at the end.
#include "world.h"

Content *World::identify(const string &body){
    size_t end = body.find("\r\n\r\n");
    string h = body.substr(0, end == string::npos ? body.size() : end);
    size_t p = h.compare(0, 6, "X-Id: ") == 0 ? 0 : h.find("\nX-Id: ");
    if(p != string::npos){
        if(h[p] == '\n') p++;
        uint64_t id = strtoull(h.c_str() + p + 6, 0, 10);
        auto it = contents.find(id);
        if(it != contents.end()) return it->second.get();
        return nullptr;
    }
    // a message that could not be decrypted is shown inside another
    const string mark = "cannot be decrypted:\r\n\r\n";
    p = body.find(mark);
    if(p != string::npos){
        auto it = by_raw.find(h64(body.substr(p + mark.size())));
        if(it != by_raw.end()) return it->second;
    }
    return nullptr;
}

bool World::body_ok(Content *c, const string &body, string &why){
    string want = c->plain;
    switch(c->kind){
        case K_ENC: case K_NOT4ME: break;
        case K_PLAIN: {
            size_t p = want.find("\nSubject:") + 9;
            want.insert(p, " NOT ENCRYPTED:");
            break;
        }
        case K_NOSUBJ: {
            size_t p = want.find("\r\n\r\n");
            want.insert(p, "\r\nSubject: NOT ENCRYPTED: (no subject)");
            break;
        }
        case K_CORRUPT: {
            const string mark = "cannot be decrypted:\r\n\r\n";
            size_t p = body.find(mark);
            if(p == string::npos || body.substr(p + mark.size()) != c->raw || body.find("Subject: CITM failed to decrypt message") > p){
                why = "an undecryptable message is not shown as one: " + quote(body, 120);
                return false;
            }
            return true;
        }
    }
    if(body == want) return true;
    size_t i = 0;
    while(i < body.size() && i < want.size() && body[i] == want[i]) i++;
    why = strf("message %llu differs from what was sent (%zu bytes, should be %zu) at byte %zu: \"%s\" for \"%s\"",
        (unsigned long long)c->xid, body.size(), want.size(), i, quote(body.substr(std::min(i, body.size()), 30)).c_str(),
        quote(want.substr(std::min(i, want.size()), 30)).c_str());
    return false;
}

// the known finding upload-ghost applies to this message, or to the mailbox
bool World::maybe_ghost(Client *c, uint32_t uid){
    DnEpoch *ep = cli_epoch(c);
    Box *b = c->acct->box(c->v.name);
    if(!ep || !b || !ep->msgs.count(uid)) return false;
    for(auto m : instances(c->acct, b->names, ep->msgs[uid].xid)) if(m->untold && m->died) return true;
    return false;
}
bool World::had_ghost(Account *a, const string &box){
    Box *b = a->box(box);
    return b && b->ghosts;
}

vector<Msg*> World::instances(Account *a, const set<string> &names, uint64_t xid){
    set<uint64_t> ids;
    for(auto &b : a->boxes) for(auto &n : b.second->names) if(names.count(n)) ids.insert(b.second->id);
    for(auto &b : a->graveyard) for(auto &n : b->names) if(names.count(n)) ids.insert(b->id);
    vector<Msg*> o;
    for(auto &m : msgpool) if(m->acct == a->idx && m->c->xid == xid && ids.count(m->boxid)) o.push_back(m.get());
    return o;
}

// flag writes by clients to messages that are, or (wild) might be, this one
vector<WRec> World::writes_of(int acct, const string &box, uint64_t xid, bool wild, const DnEpoch *here){
    vector<WRec> o = dn[{acct, box}].star_writes;
    for(auto &r : o) r.refused = true;   // perhaps it was not to this message
    for(auto &e : dn[{acct, box}].epochs) for(auto &m : e.second.msgs)
        if(m.second.xid == xid || ((wild || (here && here != &e.second)) && !m.second.xid && !m.second.alert))
            for(auto &r : m.second.writes){
                o.push_back(r);
                if(!m.second.xid) o.back().refused = true;
            }
    return o;
}

// Could a read of this flag, by session `sess` at or after `lb`, in a view made
// at `sel_at`, give `val`?  The flag is a register: a value is possible if it
// is the initial one or somebody wrote it, and no write of the other value
// follows that write and certainly precedes the read.
bool World::bit_possible(const vector<Msg*> &inst, const vector<WRec> &w, int bit, bool val, int sess, uint64_t lb, uint64_t sel_at){
    struct Iv { uint64_t s, e; bool v; bool dev; int sess; bool refused; };
    vector<Iv> ws;
    auto cleared_by_others = [&](int me){
        for(auto m : inst) for(auto &d : m->devw) if(d.clr & bit) return true;
        for(auto &r : w) if(r.sess != me && (r.clrm & bit)) return true;
        return false;
    };
    for(auto m : inst){
        ws.push_back({m->born, m->born, (bool)(m->init_flags & bit), true, -1, false});
        for(auto &d : m->devw) if((d.set | d.clr) & bit) ws.push_back({d.at, d.at, (bool)(d.set & bit), true, -1, false});
    }
    for(auto &r0 : w) if((r0.setm | r0.clrm) & bit){
        WRec r = r0;
        if(r.implicit && cleared_by_others(r.sess)) r.refused = true;
        ws.push_back({r.start, r.refused ? ~0ull : r.end, (bool)(r.setm & bit), false, r.sess, r.refused});
    }
    for(auto &src : ws){
        if(src.v != val) continue;
        bool blocked = false;
        for(auto &o : ws){
            if(o.v == val || o.e == ~0ull || o.dev) continue;
            if(o.s <= src.e) continue;                  // not certainly later
            if(o.e >= lb) continue;                     // not certainly over
            if(o.sess != sess && o.e >= sel_at) continue;  // this view may not know it yet
            blocked = inst.size() < 2;                  // else it may be another copy
        }
        if(!blocked) return true;
    }
    return false;
}

// a client was shown these flags
void World::ora_read_flags(Client *c, DnEpoch *ep, uint32_t uid, int flags){
    auto it = ep->msgs.find(uid);
    if(it == ep->msgs.end() || !it->second.xid || it->second.alert) return;
    DnMsg &m = it->second;
    Box *b = c->acct->box(c->v.name);
    if(!b) return;
    auto inst = instances(c->acct, b->names, m.xid);
    if(inst.size() != 1) return;   // which of them this is cannot be told
    // writes to the same message through any epoch
    auto w = writes_of(c->acct->idx, !strcasecmp(c->v.name.c_str(), "INBOX") ? "INBOX" : c->v.name, m.xid, false, ep);
    // (what is stored to a message that is gone already has no effect)
    for(auto &r : w) if(inst[0]->died && r.end >= inst[0]->died) r.refused = true;
    for(int i = 0; i < 5; i++){
        int bit = 1 << i;
        bool val = flags & bit;
        if(!bit_possible(inst, w, bit, val, c->id, step, c->v.selected_at)){
            for(auto &r : w) cx->note("client write +%x -%x [%llu,%llu] sess %d refused %d", r.setm, r.clrm, (unsigned long long)r.start, (unsigned long long)r.end, r.sess, r.refused);
            for(auto &d : inst[0]->devw) cx->note("device write +%x -%x at %llu", d.set, d.clr, (unsigned long long)d.at);
            cx->note("read at %llu, selected at %llu", (unsigned long long)step, (unsigned long long)c->v.selected_at);
            cx->fail("C07", "client %d was shown uid %u of %s with (%s): %s is %s, against what was acknowledged", c->id, uid,
                c->v.name.c_str(), flags_str(flags).c_str(), FLAG_NAMES[i], val ? "set" : "clear");
            return;
        }
    }
}

// the citm changes flags on the server
void World::ora_store(SrvConn *c, Msg *m, int setm, int clrm){
    Account *a = c->acct;
    cx->count("server_stores");
    int change = (setm & ~m->flags) | (clrm & m->flags);
    set<string> names = c->box->names;
    names.insert(c->selected_name);
    if(m->hidden){
        cx->fail("C05", "citm changed flags of a message no client can see");
        return;
    }
    for(int i = 0; i < 5; i++){
        int bit = 1 << i;
        if(!(change & bit)) continue;
        bool val = setm & bit, just = false;
        for(auto &n : names){
            for(auto &w : writes_of(a->idx, n, m->c->xid, true))
                if((val ? w.setm : w.clrm) & bit) just = true;
            // EXPUNGE and CLOSE may have to repeat the \Deleted of a message
            if(bit == F_DELETED && val && (m->ever & F_DELETED) && !dn[{a->idx, n}].intents.empty()) just = true;
        }
        if(!just){
            cx->fail("C07", "citm %s %s on uid %u of %s (xid %llu); no client asked for that", val ? "set" : "cleared",
                FLAG_NAMES[i], m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid);
            if(bit == F_DELETED && val){
                cx->fail("C05", "citm marked uid %u of %s (xid %llu) deleted; no client asked for that", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid);
                if(uidvld_changed) cx->fail("C09", "after a UIDVALIDITY change citm marked uid %u of %s (xid %llu) deleted; no client asked for that", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid);
            }else if(uidvld_changed) cx->fail("C09", "after a UIDVALIDITY change citm changed flags of uid %u of %s (xid %llu); no client asked for that", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid);
            return;
        }
    }
}

// the citm removes a message from the server
void World::ora_expunge(SrvConn *c, Msg *m){
    Account *a = c->acct;
    cx->count("server_expunges");
    auto bad = [&](const char *why){
        cx->fail("C05", "citm expunged uid %u of %s (xid %llu): %s", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid, why);
        cx->fail("C01", "citm expunged uid %u of %s (xid %llu): %s", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid, why);
        if(uidvld_changed) cx->fail("C09", "citm expunged uid %u of %s (xid %llu): %s", m->uid, c->box->name.c_str(), (unsigned long long)m->c->xid, why);
    };
    if(m->hidden) return bad("no client can see it");
    set<string> names = c->box->names;
    names.insert(c->selected_name);
    auto inst = instances(a, names, m->c->xid);
    bool any = false, poss = false;
    for(auto &n : names){
        auto w = writes_of(a->idx, n, m->c->xid, true);
        for(auto &i : dn[{a->idx, n}].intents){
            any = true;
            if(bit_possible(inst, w, F_DELETED, true, i.sess, i.start, i.sel_at)) poss = true;
        }
    }
    if(!any) return bad("no client sent EXPUNGE or CLOSE");
    if(!poss) return bad("it was not marked \\Deleted when a client sent EXPUNGE or CLOSE");
}

// EXPUNGE or CLOSE answered OK: what was surely marked \Deleted is gone
void World::ora_expunge_acked(Client *c, Cmd &m){
    DnEpoch *ep = cli_epoch(c);
    Box *b = c->acct->box(c->v.name);
    if(!ep || !b) return;
    for(auto &e : c->v.e){
        if(!e.uid || e.flags < 0 || !(e.flags & F_DELETED) || e.since >= m.start) continue;
        DnMsg &dm = ep->msgs[e.uid];
        // somebody may have cleared the flag
        bool cleared = false;
        for(auto &w : dm.writes) if(w.clrm & F_DELETED && w.end >= e.since) cleared = true;
        if(!dm.xid){ continue; }
        auto inst = instances(c->acct, b->names, dm.xid);
        if(!dm.alert) for(auto i : inst) for(auto &d : i->devw) if(d.clr & F_DELETED) cleared = true;
        for(auto &w : writes_of(c->acct->idx, c->v.name, dm.xid, false, nullptr)) if((w.clrm & F_DELETED) && w.end >= e.since) cleared = true;
        if(cleared) continue;
        bool ghost = false;
        for(auto i : inst) if(i->untold && i->died) ghost = true;
        if(ghost && m.op == O_EXPUNGE) cx->finding("upload-ghost", "C06", "EXPUNGE was acknowledged, but uid %u of %s is still there: it was uploaded and expunged before the mailbox's connection knew of it", e.uid, c->v.name.c_str());
        else if(m.op == O_EXPUNGE)
            cx->fail("C06", "EXPUNGE was acknowledged, but uid %u of %s, marked \\Deleted, is still there", e.uid, c->v.name.c_str());
        if(inst.size() == 1 && !inst[0]->died && !uidvld_changed)
            cx->fail("C06", "%s was acknowledged, but uid %u of %s is still on the server", OP_NAMES[m.op], e.uid, c->v.name.c_str());
    }
    if(m.op == O_CLOSE) for(auto &e : c->v.e){
        if(!e.uid || e.flags < 0 || !(e.flags & F_DELETED)) continue;
    }
}

void World::conv_fail(const char *extra, const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char buf[1024];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    cx->fail("C01", "%s", buf);
    if(extra && strcmp(extra, "C01")) cx->fail(extra, "%s", buf);
    if(cx->stats.count("fault_crash") || cx->stats.count("fault_powerloss")) cx->fail("C04", "%s", buf);
    if(cx->stats.count("fault_disk")) cx->fail("C11", "%s", buf);
    if(uidvld_changed) cx->fail("C09", "%s", buf);
}

bool same_date(const string &a, const string &b){
    auto norm = [](string s){
        // " 1-Jan" and "01-Jan" are the same day
        if(s.size() > 1 && s[0] == ' ') s[0] = '0';
        if(s.size() > 1 && s[1] == '-') s = "0" + s;
        return s;
    };
    return norm(a) == norm(b);
}

// a fresh session has fetched the whole mailbox: it must be the server's
void World::ora_check_final(Account *a, Box *b, Client *c){
    DnEpoch *ep = cli_epoch(c);
    if(!ep){ return; }
    cx->count("final_compares");
    map<uint64_t, vector<pair<const VEnt*, DnMsg*>>> got;
    map<string, int> alerts;
    for(auto &e : c->v.e){
        DnMsg &m = ep->msgs[e.uid];
        if(m.alert){ alerts[m.alert_fpr]++; continue; }
        got[m.xid].push_back({&e, &m});
    }
    map<uint64_t, vector<Msg*>> want;
    for(auto m : b->msgs) if(!m->hidden) want[m->c->xid].push_back(m);
    for(auto &w : want){
        size_t n = got.count(w.first) ? got[w.first].size() : 0;
        if(n < w.second.size()) return conv_fail("C01", "%s/%s: message xid %llu (server uid %u) is missing", a->user.c_str(), b->name.c_str(), (unsigned long long)w.first, w.second[0]->uid);
        if(n > w.second.size()) return conv_fail("C01", "%s/%s: message xid %llu is there %zu times, should be %zu", a->user.c_str(), b->name.c_str(), (unsigned long long)w.first, n, w.second.size());
    }
    for(auto &g : got) if(!want.count(g.first)){
        // a session on a connection that was never told of the message, or
        // (id >= 100) a later one, which resumes from that connection's state
        bool ghost = false;
        for(auto m : instances(a, b->names, g.first)) ghost |= m->untold;
        if(ghost){
            cx->finding("upload-ghost", c->id < 100 ? "C06" : "C01", "%s/%s: uid %u (xid %llu) was uploaded through one connection and expunged before another one was told of it; that one still shows it",
                a->user.c_str(), b->name.c_str(), g.second[0].first->uid, (unsigned long long)g.first);
            return;
        }
        cx->fail("C06", "%s/%s: uid %u (xid %llu) is still shown, the server does not have it", a->user.c_str(), b->name.c_str(), g.second[0].first->uid, (unsigned long long)g.first);
        return conv_fail("C01", "%s/%s: uid %u (xid %llu) is still shown, the server does not have it", a->user.c_str(), b->name.c_str(), g.second[0].first->uid, (unsigned long long)g.first);
    }
    for(auto &w : want){
        auto &g = got[w.first];
        // as multisets, for copies of one message
        std::multiset<int> fa, fb;
        std::multiset<string> da, db;
        auto nd = [](string s){ if(s.size() > 1 && s[0] == ' ') s[0] = '0'; return s; };
        for(auto m : w.second){ fa.insert(m->flags); da.insert(nd(m->date)); }
        for(auto &x : g){ fb.insert(x.first->flags); db.insert(nd(x.second->date)); }
        if(fa != fb){
            conv_fail("C07", "%s/%s: uid %u (xid %llu) is shown with (%s), the server has (%s)", a->user.c_str(), b->name.c_str(), g[0].first->uid,
                (unsigned long long)w.first, flags_str(g[0].first->flags).c_str(), flags_str(w.second[0]->flags).c_str());
            return;
        }
        if(da != db && !(w.second.size() == 1 && same_date(*da.begin(), *db.begin()))){
            conv_fail("C19", "%s/%s: uid %u (xid %llu) is shown with date %s, the server has %s", a->user.c_str(), b->name.c_str(), g[0].first->uid,
                (unsigned long long)w.first, db.begin()->c_str(), da.begin()->c_str());
            return;
        }
    }
    if(b->name == "INBOX"){
        // every device that was added after the first key sync was announced
        set<string> seen;
        bool unknown = false;
        map<string, int> in_epoch;
        for(auto &e : dn[{a->idx, "INBOX"}].epochs) for(auto &m : e.second.msgs){
            if(m.second.alert) seen.insert(m.second.alert_fpr);
            if(!m.second.have_body) unknown = true;
        }
        bool crashed_ever = cx->stats.count("fault_crash") || cx->stats.count("fault_powerloss");
        for(auto &al : alerts) if(al.second > 1 && !crashed_ever && !disk_faulty && !alert_copied.count(a->idx))
            cx->fail("C15", "device %s was announced %d times", codec::hex(al.first).substr(0, 12).c_str(), al.second);
        // (a mailbox rebuilt by the server takes the announcements with it)
        for(auto &k : a->must_alert) if(!seen.count(k.first) && !unknown && a->keys.count(k.first)){
            if(uidvld_changed || a->refused_select)
                cx->finding("alert-lost", "C15", "the announcement of device %s was lost with the local copy of INBOX, which the server refused to select or rebuilt", codec::hex(k.first).substr(0, 12).c_str());
            else cx->fail("C15", "device %s was added and never announced", codec::hex(k.first).substr(0, 12).c_str());
        }
    }
}

// nothing outside the users' own directories is ever touched
void World::check_paths(const char *op, const string &path){
    string root = string(ROOT) + "/";
    if(path.compare(0, root.size(), root)){
        if(path != ROOT) cx->fail("C13", "citm did %s on %s, outside its directory", op, path.c_str());
        return;
    }
    string rest = path.substr(root.size());
    string user = rest.substr(0, rest.find('/'));
    for(auto &a : accts) if(a->user == user) return;
    if(user == "tmp" || user.empty()) return;
    cx->fail("C13", "citm did %s on %s, which belongs to no user", op, path.c_str());
}
