// The model IMAP server (CONDSTORE, QRESYNC, UIDPLUS, XKEY) and the user's
// other devices.
#include "world.h"

string World::rand_date(){
    static const char *mon[] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
    return strf("%02d-%s-%04d %02d:%02d:%02d %s", (int)rng.range(1, 28), mon[rng.below(12)],
        (int)rng.range(2001, 2037), (int)rng.below(24), (int)rng.below(60), (int)rng.below(60),
        rng.pct(70) ? "+0000" : rng.pct(50) ? "-0730" : "+0545");
}

Box *World::make_box(Account *a, const string &name){
    auto b = std::make_unique<Box>();
    b->id = next_boxid++;
    b->name = name;
    b->names.insert(name);
    b->uidvld = a->next_uidvld++;
    b->uidnext = (uint32_t)rng.range(1, 4);
    Box *r = b.get();
    a->boxes[name] = std::move(b);
    return r;
}

void World::touch(Box *b, Msg *m){ m->modseq = ++b->himod; }

Msg *World::deliver(Account *a, Box *b, Content *c, int flags, const string &date){
    auto m = std::make_unique<Msg>();
    m->sid = next_sid++;
    m->uid = b->uidnext;
    b->uidnext += 1 + (rng.pct(15) ? rng.below(5) : 0);
    m->c = c;
    m->raw = c->raw;
    m->flags = m->init_flags = m->ever = flags;
    m->date = date;
    m->born = step;
    m->hidden = c->kind == K_NOT4ME;
    for(auto &f : c->recips) if(f != a->mykey->fpr){ a->may_alert.insert(f); a->seen_ever.insert(f); }
    m->boxid = b->id; m->uidvld = b->uidvld; m->acct = a->idx;
    touch(b, m.get());
    b->msgs.push_back(m.get());
    msgpool.push_back(std::move(m));
    return b->msgs.back();
}

void World::expunge_msg(Account *a, Box *b, Msg *m){
    b->himod++;
    b->gone.push_back({m->uid, b->himod});
    m->died = step;
    if(m->uploaded) for(auto &c : srv)
        if(c->box == b && !std::binary_search(c->view.begin(), c->view.end(), m->uid)) m->untold = true;
    // or the upload's answer is still on its way
    if(m->uploaded && !infile.count(string(ROOT) + "/" + a->user + "/mail/" + b->name + "," + std::to_string(m->uid))) m->untold = true;
    b->ghosts += m->untold;
    b->msgs.erase(std::find(b->msgs.begin(), b->msgs.end(), m));
}

Content *World::make_content(Account *a, int kind, int64_t hint){
    auto c = std::make_unique<Content>();
    c->xid = next_xid++;
    c->kind = kind;
    Rng r(mix64(c->xid) ^ plan.seed);
    size_t size;
    switch(hint % 8){
        case 0: size = 0; break;
        case 1: size = 1 + r.below(20); break;
        case 2: size = 4000 + r.below(200); break;      // around a read buffer
        case 3: size = 5000 + r.below(9000); break;
        default: size = 20 + r.below(600); break;
    }
    string body;
    while(body.size() < size){
        size_t n = r.below(78);
        for(size_t i = 0; i < n; i++) body += (char)(32 + r.below(95));
        if(r.pct(3)) body += "\xc3\xa9\xff\x80";
        body += "\r\n";
        if(r.pct(4)) body += ".\r\n";
        if(r.pct(3)) body += "* 3 EXPUNGE\r\n";
        if(r.pct(3)) body += "a1 OK {5}\r\n";
    }
    body.resize(std::min(body.size(), size));
    string h = strf("X-Id: %llu.%d\r\nFrom: a%llu@example.com\r\nTo: %s@example.com\r\nDate: Mon, 7 Feb 1994 21:52:25 -0800\r\n",
        (unsigned long long)c->xid, a->idx, (unsigned long long)c->xid, a->user.c_str());
    if(kind != K_NOSUBJ) h += strf("Subject: subject %llu here\r\n", (unsigned long long)c->xid);
    c->plain = h + "\r\n" + body;
    if(kind == K_ENC || kind == K_CORRUPT || kind == K_NOT4ME){
        vector<const codec::Key*> ks;
        for(auto &k : keypool){
            if(kind == K_NOT4ME){
                if(a->keys.count(k->fpr) && k.get() != a->mykey) ks.push_back(k.get());
            }else if(a->keys.count(k->fpr) || k.get() == a->mykey) ks.push_back(k.get());
        }
        if(ks.empty()) ks.push_back(keypool.back().get());
        c->raw = codec::encrypt(ks, c->plain);
        for(auto k : ks) c->recips.push_back(k->fpr);
        if(kind == K_CORRUPT){
            // damage: a flipped bit in the payload, a bad tag, or a truncation
            size_t at = c->raw.size() - 120;
            switch(r.below(7)){
                case 0: c->raw[at] = c->raw[at] == 'A' ? 'B' : c->raw[at] == '\n' ? 'C' : 'A'; break;
                case 1: { size_t p = c->raw.rfind("\n="); c->raw[p + 3] = c->raw[p + 3] == 'A' ? 'B' : 'A'; break; }
                case 2: c->raw.resize(c->raw.size() * 7 / 8); break;
                case 3: c->raw = codec::remake(c->raw, [](string &b){ b[2] = '2'; }); break;           // another version
                case 4: c->raw = codec::remake(c->raw, [](string &b){ size_t p = b.find("R:32:"); if(p != string::npos) b.replace(p, 5, "R:9999:"); }); break;
                case 5: c->raw = codec::remake(c->raw, [](string &b){ size_t p = b.find("R:32:"); if(p != string::npos) b.replace(p, 5, "R:4294967295:"); }); break;
                case 6: c->raw = codec::remake(c->raw, [](string &b){ size_t p = b.find("R:32:"); if(p != string::npos){ size_t q = b.find(':', p + 38); b.replace(p + 38, q - p - 38, "4294967295"); } }); break;
            }
        }
    }else{
        c->raw = c->plain;
    }
    Content *out = c.get();
    by_raw[h64(c->raw)] = out;
    contents[c->xid] = std::move(c);
    return out;
}

void World::srv_send(SrvConn *c, const string &s){
    if(c->closed || c->pipe->dead) return;
    c->pipe->to_citm += s;
    cx->mix(s);
    if(cx->trace) cx->note("S%d> %s", c->id, quote(s, 300).c_str());
}

bool World::srv_conn_lost(int id){
    for(auto &c : srv) if(c->id == id) return c->closed || c->pipe->dead || c->pipe->peer_gone;
    return true;
}

void World::srv_close(SrvConn *c){
    if(c->closed) return;
    c->closed = true;
    c->pipe->peer_eof = true;
    c->box = nullptr;
}

void World::srv_bytes(SrvConn *c, const string &b){
    if(c->closed) return;
    c->in.buf += b;
    string line;
    while(c->in.next(line)) c->cmds.push_back(line);
}

string World::srv_fetch_line(SrvConn *c, Msg *m, const string &attrs){
    size_t seq = 0;
    for(size_t i = 0; i < c->view.size(); i++) if(c->view[i] == m->uid) seq = i + 1;
    return strf("* %zu FETCH (UID %u", seq, m->uid) + attrs + ")\r\n";
}

// tell the peer what changed in the selected mailbox
void World::srv_sync(SrvConn *c, bool expunges, bool fetches){
    Box *b = c->box;
    if(!b) return;
    string out;
    if(expunges){
        vector<uint32_t> gone;
        for(size_t i = 0; i < c->view.size();){
            if(!b->find(c->view[i])){
                gone.push_back(c->view[i]);
                c->view.erase(c->view.begin() + i);
            }else i++;
        }
        if(!gone.empty()) out += "* VANISHED " + setstr(gone) + "\r\n";
    }
    uint32_t top = c->view.empty() ? 0 : c->view.back();
    bool grew = false;
    string fetch;
    for(auto m : b->msgs){
        bool in = std::binary_search(c->view.begin(), c->view.end(), m->uid);
        if(!in){
            if(m->uid > top){ c->view.push_back(m->uid); grew = true; c->notified[m->uid] = m->modseq; }
            continue;
        }
        if(fetches && c->notified[m->uid] < m->modseq){
            c->notified[m->uid] = m->modseq;
            fetch += srv_fetch_line(c, m, strf(" FLAGS (%s) MODSEQ (%llu)", flags_str(m->flags).c_str(), (unsigned long long)m->modseq));
        }
    }
    if(grew) out += strf("* %zu EXISTS\r\n* 0 RECENT\r\n", c->view.size());
    out += fetch;
    if(!out.empty()) srv_send(c, out);
}

bool World::srv_can_push(SrvConn *c){
    if(c->closed) return false;
    if(!c->xkey_tag.empty() && c->acct){
        for(auto &k : c->acct->keys) if(!c->xk_known.count(k.first)) return true;
        for(auto &f : c->xk_known) if(!c->acct->keys.count(f)) return true;
    }
    if(!c->idle_tag.empty() && c->box){
        for(uint32_t u : c->view) if(!c->box->find(u)) return true;
        for(auto m : c->box->msgs){
            auto it = c->notified.find(m->uid);
            if(it == c->notified.end() || it->second < m->modseq) return true;
        }
    }
    return false;
}

static string hexfpr(const string &f){ return codec::hex(f); }

static void push_keys(World *w, SrvConn *c, bool first){
    bool any = false;
    for(auto it = c->xk_known.begin(); it != c->xk_known.end();){
        if(!c->acct->keys.count(*it)){
            w->srv_send(c, "* XKEYSYNC DELETED " + hexfpr(*it) + "\r\n");
            it = c->xk_known.erase(it);
            any = true;
        }else ++it;
    }
    for(auto &k : c->acct->keys){
        if(c->xk_known.count(k.first)) continue;
        w->srv_send(c, strf("* XKEYSYNC CREATED {%zu}\r\n", k.second.size()) + k.second + "\r\n");
        c->xk_known.insert(k.first);
        any = true;
        Account *a = c->acct;
        bool known = !a->seen_ever.insert(k.first).second;
        if(a->never_alert.count(k.first) || a->must_alert.count(k.first)) continue;
        if(a->keysync_done_once && !known){
            a->must_alert[k.first] = w->step;
            cx->count("alerts_due");
        }else a->may_alert.insert(k.first);
    }
    if(first && !any) w->srv_send(c, "* XKEYSYNC OK\r\n");
}

void World::srv_push(SrvConn *c){
    cx->ev("push S%d", c->id);
    if(!c->xkey_tag.empty()) push_keys(this, c, false);
    if(!c->idle_tag.empty()) srv_sync(c, true);
}

void World::srv_select(SrvConn *c, const string &tag, vector<Tok> &t, bool ro){
    if(c->box && c->qresync) srv_send(c, "* OK [CLOSED] previous mailbox closed\r\n");
    c->box = nullptr;
    c->view.clear();
    c->notified.clear();
    Box *b = t.size() > 2 ? c->acct->box(t[2].s) : nullptr;
    if(!b){
        srv_send(c, tag + " NO [NONEXISTENT] Mailbox doesn't exist\r\n");
        return;
    }
    c->box = b;
    c->selected_name = b->name;
    c->readonly = ro;
    for(auto m : b->msgs){ c->view.push_back(m->uid); c->notified[m->uid] = m->modseq; }
    string o = "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n";
    o += ro ? "* OK [PERMANENTFLAGS ()] Read-only mailbox.\r\n"
            : "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\*)] Flags permitted.\r\n";
    string ex = strf("* %zu EXISTS\r\n* 0 RECENT\r\n", b->msgs.size());
    string uv = strf("* OK [UIDVALIDITY %u] UIDs valid\r\n* OK [UIDNEXT %u] Predicted next UID\r\n", b->uidvld, b->uidnext);
    if(plan.knob("select_order") == 1) o += uv + ex; else o += ex + uv;
    o += strf("* OK [HIGHESTMODSEQ %llu] Highest\r\n", (unsigned long long)b->himod);
    if(t.size() > 3 && t[3].t == Tok::LIST){
        for(size_t i = 0; i + 1 < t[3].l.size(); i++){
            if(!t[3].l[i].is("QRESYNC") || t[3].l[i+1].t != Tok::LIST || t[3].l[i+1].l.size() < 2) continue;
            uint32_t v = strtoul(t[3].l[i+1].l[0].s.c_str(), 0, 10);
            uint64_t ms = strtoull(t[3].l[i+1].l[1].s.c_str(), 0, 10);
            if(v != b->uidvld) continue;
            vector<uint32_t> gone;
            if(plan.knob("vanish_superset")){
                for(uint32_t u = 1; u < b->uidnext; u++) if(!b->find(u)) gone.push_back(u);
            }else{
                for(auto &g : b->gone) if(g.second > ms) gone.push_back(g.first);
                std::sort(gone.begin(), gone.end());
            }
            if(!gone.empty()) o += "* VANISHED (EARLIER) " + setstr(gone) + "\r\n";
            for(auto m : b->msgs) if(m->modseq > ms)
                o += srv_fetch_line(c, m, strf(" FLAGS (%s) MODSEQ (%llu)", flags_str(m->flags).c_str(), (unsigned long long)m->modseq));
        }
    }
    o += tag + (ro ? " OK [READ-ONLY] Examine completed.\r\n" : " OK [READ-WRITE] Select completed.\r\n");
    srv_send(c, o);
}

void World::srv_fetch(SrvConn *c, const string &tag, vector<Tok> &t){
    // t: tag UID FETCH set attrs [mods]
    Box *b = c->box;
    uint32_t top = b->msgs.empty() ? 0 : b->msgs.back()->uid;
    auto set = seqset(t[3].s, top);
    bool flags = false, ms = false, body = false, idate = false;
    for(auto &x : t[4].l){
        if(x.is("FLAGS")) flags = true;
        if(x.is("MODSEQ")) ms = true;
        if(x.is("INTERNALDATE")) idate = true;
        if(x.is("BODY.PEEK[]")) body = true;
        if(x.is("BODY[]")) cx->fail("C07", "citm fetched a body without PEEK: that sets \\Seen on the server unasked");
    }
    uint64_t since = 0;
    bool vanished = false;
    if(t.size() > 5) for(size_t i = 0; i < t[5].l.size(); i++){
        if(t[5].l[i].is("CHANGEDSINCE") && i + 1 < t[5].l.size()) since = strtoull(t[5].l[i+1].s.c_str(), 0, 10);
        if(t[5].l[i].is("VANISHED")) vanished = true;
    }
    srv_sync(c, false);
    if(vanished){
        auto vset = seqset(t[3].s, std::max(top, b->uidnext - 1));   // what was, counts too
        vector<uint32_t> gone;
        if(plan.knob("vanish_superset")){
            for(uint32_t u = 1; u < b->uidnext; u++) if(!b->find(u)) gone.push_back(u);
        }else{
            for(auto &g : b->gone) if(g.second > since && inset(vset, g.first)) gone.push_back(g.first);
            std::sort(gone.begin(), gone.end());
        }
        if(!gone.empty()) srv_send(c, "* VANISHED (EARLIER) " + setstr(gone) + "\r\n");
        for(size_t i = 0; i < c->view.size();){
            if(std::binary_search(gone.begin(), gone.end(), c->view[i])) c->view.erase(c->view.begin() + i); else i++;
        }
    }
    string out;
    for(auto m : b->msgs){
        if(!inset(set, m->uid) || (since && m->modseq <= since)) continue;
        string at;
        if(flags){ at += " FLAGS (" + flags_str(m->flags) + ")"; c->notified[m->uid] = m->modseq; }
        if(ms) at += strf(" MODSEQ (%llu)", (unsigned long long)m->modseq);
        if(idate) at += " INTERNALDATE \"" + m->date + "\"";
        if(body) at += strf(" BODY[] {%zu}\r\n", m->raw.size()) + m->raw;
        out += srv_fetch_line(c, m, at);
    }
    srv_send(c, out);
    srv_sync(c, true);
    srv_send(c, tag + " OK Fetch completed.\r\n");
}

void World::srv_store(SrvConn *c, const string &tag, vector<Tok> &t){
    // tag UID STORE set FLAGS (..)
    Box *b = c->box;
    uint32_t top = b->msgs.empty() ? 0 : b->msgs.back()->uid;
    auto set = seqset(t[3].s, top);
    size_t i = 4;
    if(t[i].t == Tok::LIST) i++;
    string what = t[i].s;
    int f = flags_of(t[i+1]);
    bool silent = strcasestr(what.c_str(), ".SILENT");
    int sign = what[0] == '+' ? 1 : what[0] == '-' ? -1 : 0;
    if(c->readonly){
        cx->fail("C10", "citm sent STORE on a mailbox it opened read-only");
        srv_send(c, tag + " NO [READ-ONLY] Mailbox is read-only\r\n");
        return;
    }
    string out;
    for(auto m : b->msgs){
        if(!inset(set, m->uid)) continue;
        int setm = sign >= 0 ? f : 0, clrm = sign < 0 ? f : sign == 0 ? F_ALL & ~f : 0;
        ora_store(c, m, setm, clrm);
        int nf = (m->flags | setm) & ~clrm;
        m->ever |= nf;
        if(nf != m->flags){
            m->flags = nf;
            touch(b, m);
            cx->ev("server %s uid %u now (%s)", b->name.c_str(), m->uid, flags_str(nf).c_str());
        }
        c->notified[m->uid] = m->modseq;
        story(c->acct, b, m, false);
        if(!silent) out += srv_fetch_line(c, m, strf(" FLAGS (%s) MODSEQ (%llu)", flags_str(m->flags).c_str(), (unsigned long long)m->modseq));
        else out += srv_fetch_line(c, m, strf(" MODSEQ (%llu)", (unsigned long long)m->modseq));
    }
    // other devices' changes come first: they happened first
    srv_sync(c, false);
    srv_send(c, out);
    srv_sync(c, true);
    srv_send(c, tag + " OK Store completed.\r\n");
}

static bool listmatch(const char *p, const char *s){
    if(!*p) return !*s;
    if(*p == '*') return listmatch(p + 1, s) || (*s && listmatch(p, s + 1));
    if(*p == '%') return listmatch(p + 1, s) || (*s && *s != '/' && listmatch(p, s + 1));
    return *s && *p == *s && listmatch(p + 1, s + 1);
}

void World::srv_exec(SrvConn *c){
    string line = c->cmds.front();
    c->cmds.pop_front();
    if(c->closed) return;
    cx->ev("exec S%d %s", c->id, quote(line, 160).c_str());
    // DONE ends IDLE or XKEYSYNC
    if(!strcasecmp(line.c_str(), "DONE")){
        if(!c->idle_tag.empty()){
            srv_sync(c, true);
            srv_send(c, c->idle_tag + " OK Idle completed.\r\n");
            c->idle_tag.clear();
        }else if(!c->xkey_tag.empty()){
            srv_send(c, c->xkey_tag + " OK xkeysync complete\r\n");
            c->xkey_tag.clear();
        }else if(c->refused_idle) c->refused_idle--;
        else cx->fail("C20", "citm sent DONE to the server with nothing to end");
        return;
    }
    Parser ps(line);
    vector<Tok> t = ps.all();
    if(ps.bad || t.size() < 2){
        cx->fail("C20", "citm sent the server a malformed command: %s", quote(line).c_str());
        srv_send(c, "* BAD syntax\r\n");
        return;
    }
    string tag = t[0].s, cmd = t[1].s;
    for(auto &ch : cmd) ch = toupper(ch);
    bool uid = false;
    if(cmd == "UID" && t.size() > 2){ uid = true; cmd = t[2].s; for(auto &ch : cmd) ch = toupper(ch); }
    if(!c->idle_tag.empty() || !c->xkey_tag.empty()){
        cx->fail("C20", "citm sent %s while %s was still in progress", cmd.c_str(), c->idle_tag.empty() ? "XKEYSYNC" : "IDLE");
        srv_send(c, tag + " BAD expected DONE\r\n");
        return;
    }
    if(srvno > 0 && cmd != "LOGOUT" && --srvno == 0){
        faulty = true;
        cx->count("fault_server_no");
        cx->ev("server NO to %s", cmd.c_str());
        srv_send(c, tag + (rng.pct(70) ? " NO internal failure, try again\r\n" : " BAD internal failure\r\n"));
        for(auto &cl : clients) cl->excused = true;
        // what was sent on the assumption that this would work
        if(cmd == "IDLE" || cmd == "XKEYSYNC") c->refused_idle++;
        if(cmd == "LOGIN") c->refused_login = true;
        if((cmd == "SELECT" || cmd == "EXAMINE") && c->acct) c->acct->refused_select = true;
        return;
    }
    auto ok = [&](const char *text){ srv_send(c, tag + " OK " + text + "\r\n"); };
    auto no = [&](const char *text){ srv_send(c, tag + " NO " + text + "\r\n"); };
    if(cmd == "CAPABILITY"){
        srv_send(c, "* CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY\r\n");
        return ok("done");
    }
    if(cmd == "NOOP" || cmd == "CHECK"){
        srv_sync(c, true);
        return ok(c->box ? strf("[HIGHESTMODSEQ %llu] done", (unsigned long long)c->box->himod).c_str() : "done");
    }
    if(cmd == "LOGOUT"){
        srv_send(c, "* BYE logging out\r\n");
        ok("bye");
        return srv_close(c);
    }
    if(cmd == "LOGIN"){
        Account *a = nullptr;
        if(t.size() == 4) for(auto &x : accts) if(x->user == t[2].s && x->pass == t[3].s) a = x.get();
        if(!a){ return no("[AUTHENTICATIONFAILED] Authentication failed."); }
        c->acct = a;
        return ok("[CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY] Logged in");
    }
    if(!c->acct){
        if(!c->refused_login) cx->fail("C13", "citm sent %s before a successful login", cmd.c_str());
        if(cmd == "XKEYSYNC") c->refused_idle++;
        return no("not logged in");
    }
    Account *a = c->acct;
    if(cmd == "ENABLE"){
        c->qresync = true;
        srv_send(c, "* ENABLED CONDSTORE QRESYNC\r\n");
        return ok("Enabled.");
    }
    if(cmd == "XKEYSYNC"){
        c->is_xkey = true;
        c->nkeysync++;
        c->xk_known.clear();
        for(size_t i = 2; i < t.size(); i++){
            string f = t[i].s, b;
            for(size_t j = 0; j + 1 < f.size(); j += 2) b += (char)strtol(f.substr(j, 2).c_str(), 0, 16);
            c->xk_known.insert(b);
        }
        if(c->nkeysync == 2) a->keysync_done_once = true;
        c->xkey_tag = tag;
        push_keys(this, c, true);
        srv_send(c, "+ OK\r\n");
        return;
    }
    if(cmd == "XKEYADD"){
        EVP_PKEY *p = t.size() == 3 ? codec::read_pub(t[2].s) : nullptr;
        if(!p) { cx->fail("C15", "citm uploaded something that is not a public key"); return no("bad key"); }
        string f = codec::fingerprint(p);
        EVP_PKEY_free(p);
        if(f != a->mykey->fpr) cx->fail("C15", "citm uploaded a key that is not its own");
        a->keys[f] = t[2].s;
        a->never_alert.insert(f);
        cx->ev("XKEYADD ok");
        return ok("key added");
    }
    if(cmd == "SELECT" || cmd == "EXAMINE") return srv_select(c, tag, t, cmd == "EXAMINE");
    if(cmd == "LIST" || cmd == "LSUB"){
        string pat = t.size() > 3 ? t[2].s + t[3].s : "*";
        for(auto &b : a->boxes){
            if(cmd == "LSUB" && !b.second->subscribed) continue;
            if(!listmatch(pat.c_str(), b.first.c_str())) continue;
            srv_send(c, "* " + cmd + " (\\HasNoChildren) \"/\" " + istr(b.first) + "\r\n");
        }
        return ok("List completed.");
    }
    if(cmd == "STATUS"){
        Box *b = t.size() > 3 ? a->box(t[2].s) : nullptr;
        if(!b) return no("Mailbox doesn't exist");
        string o;
        for(auto &x : t[3].l){
            uint64_t v = 0;
            if(x.is("MESSAGES")) v = b->msgs.size();
            else if(x.is("UIDNEXT")) v = b->uidnext;
            else if(x.is("UIDVALIDITY")) v = b->uidvld;
            else if(x.is("UNSEEN")){ for(auto m : b->msgs) if(!(m->flags & F_SEEN)) v++; }
            else if(x.is("HIGHESTMODSEQ")) v = b->himod;
            if(!o.empty()) o += " ";
            o += x.s + " " + std::to_string(v);
        }
        srv_send(c, "* STATUS " + istr(b->name) + " (" + o + ")\r\n");
        return ok("Status completed.");
    }
    if(cmd == "CREATE"){
        if(t.size() < 3 || t[2].s.empty()) return no("bad name");
        if(a->box(t[2].s)) return no("[ALREADYEXISTS] Mailbox already exists");
        make_box(a, t[2].s);
        cx->ev("box created %s", t[2].s.c_str());
        return ok("Create completed.");
    }
    if(cmd == "DELETE"){
        Box *b = t.size() > 2 ? a->box(t[2].s) : nullptr;
        if(!b || b->name == "INBOX") return no("Mailbox doesn't exist");
        if(!b->dead) { drop_box_conns(a, b); }
        b->dead = true;
        string n = b->name;
        a->graveyard.push_back(std::move(a->boxes[n]));
        a->boxes.erase(n);
        cx->ev("box deleted %s", n.c_str());
        return ok("Delete completed.");
    }
    if(cmd == "RENAME"){
        Box *b = t.size() > 3 ? a->box(t[2].s) : nullptr;
        if(!b || b->name == "INBOX" || t[3].s.empty()) return no("Mailbox doesn't exist");
        if(a->box(t[3].s)) return no("[ALREADYEXISTS] Target exists");
        string n = b->name;
        auto u = std::move(a->boxes[n]);
        a->boxes.erase(n);
        u->name = t[3].s;
        u->names.insert(t[3].s);
        // a renamed mailbox gets a new uidvalidity, as RFC 3501 allows
        a->boxes[t[3].s] = std::move(u);
        cx->ev("box renamed %s -> %s", n.c_str(), t[3].s.c_str());
        return ok("Rename completed.");
    }
    if(cmd == "SUBSCRIBE" || cmd == "UNSUBSCRIBE"){
        Box *b = t.size() > 2 ? a->box(t[2].s) : nullptr;
        if(!b) return no("Mailbox doesn't exist");
        b->subscribed = cmd == "SUBSCRIBE";
        return ok("done");
    }
    if(cmd == "APPEND"){
        // APPEND box [flags] [date] literal
        Box *b = t.size() > 3 ? a->box(t[2].s) : nullptr;
        if(!b) return no("[TRYCREATE] Mailbox doesn't exist");
        int fl = 0; string date = "01-Jan-2026 00:00:00 +0000";
        for(size_t i = 3; i + 1 < t.size(); i++){
            if(t[i].t == Tok::LIST) fl = flags_of(t[i]); else date = t[i].s;
        }
        string raw = t.back().s, plain;
        vector<string> rc;
        Content *ct = nullptr;
        if(!codec::decrypt(*a->mykey, raw, plain, &rc)){
            cx->fail("C12", "citm uploaded a message that is not encrypted to its own key: %s", quote(raw, 60).c_str());
            cx->fail("C16", "citm uploaded a message that is not encrypted to its own key");
            ct = make_content(a, K_PLAIN, 1);
        }else{
            ct = identify(plain);
            if(!ct || plain != ct->plain){
                cx->fail("C12", "the message uploaded by citm differs from what a client appended: %s", quote(plain, 80).c_str());
                if(!ct) ct = make_content(a, K_PLAIN, 1);
            }
            if(!cx->stats.count("key_changes")){
                for(auto &k : a->keys) if(std::find(rc.begin(), rc.end(), k.first) == rc.end()){
                    cx->fail("C16", "appended message is not readable by device %s of the account", codec::hex(k.first).substr(0, 12).c_str());
                    cx->fail("C12", "appended message is not readable by device %s of the account", codec::hex(k.first).substr(0, 12).c_str());
                }
                for(auto &r : rc) if(!a->keys.count(r)) cx->fail("C16", "appended message is encrypted to a key that is not on the account");
            }else{
                // a key of another account is never right
                for(auto &x : accts) if(x.get() != a)
                    if(std::find(rc.begin(), rc.end(), x->mykey->fpr) != rc.end())
                        cx->fail("C13", "message of %s encrypted to the key of %s", a->user.c_str(), x->user.c_str());
            }
        }
        ct->raw = raw;
        by_raw[h64(raw)] = ct;
        Msg *m = deliver(a, b, ct, fl, date);
        m->uploaded = true;
        m->raw = raw;
        cx->ev("append %s uid %u xid %llu (%s)", b->name.c_str(), m->uid, (unsigned long long)ct->xid, flags_str(fl).c_str());
        cx->count("server_appends");
        app_done[ct->xid]++;
        if(app_done[ct->xid] > app_asked[ct->xid] && app_asked.count(ct->xid)) cx->fail("C12", "one APPEND put the message on the server %d times", app_done[ct->xid]);
        late(c, b, m);
        if(c->box == b) srv_sync(c, true);
        return ok(strf("[APPENDUID %u %u] Append completed.", b->uidvld, m->uid).c_str());
    }
    if(!c->box){
        cx->fail("C20", "citm sent %s with no mailbox selected", cmd.c_str());
        return no("No mailbox selected");
    }
    Box *b = c->box;
    if(cmd == "UNSELECT" || cmd == "CLOSE"){
        if(cmd == "CLOSE" && !c->readonly){
            vector<Msg*> del;
            for(auto m : b->msgs) if(m->flags & F_DELETED) del.push_back(m);
            for(auto m : del){ ora_expunge(c, m); expunge_msg(a, b, m); }
        }
        c->box = nullptr;
        c->view.clear();
        return ok("Unselect completed.");
    }
    if(cmd == "IDLE"){
        c->idle_tag = tag;
        srv_send(c, "+ idling\r\n");
        return;
    }
    if(cmd == "FETCH" && uid && t.size() >= 5) return srv_fetch(c, tag, t);
    if(cmd == "STORE" && uid && t.size() >= 6) return srv_store(c, tag, t);
    if(cmd == "COPY" && uid && t.size() >= 5){
        Box *d = a->box(t[4].s);
        if(!d){ nobox_at = step; srv_sync(c, false); return no("[TRYCREATE] Mailbox doesn't exist"); }
        uint32_t top = b->msgs.empty() ? 0 : b->msgs.back()->uid;
        auto set = seqset(t[3].s, top);
        vector<uint32_t> from, to;
        vector<Msg*> src;
        map<std::tuple<int, string, uint64_t>, bool> lost_of;
        for(auto m : b->msgs) if(inset(set, m->uid)) src.push_back(m);
        for(auto m : src){
            Msg *n = deliver(a, d, m->c, m->flags, m->date);
            n->uploaded = true;
            n->raw = m->raw;
            n->hidden = m->hidden;
            late(c, d, n);
            from.push_back(m->uid);
            to.push_back(n->uid);
            cx->ev("copy %s uid %u -> %s uid %u", b->name.c_str(), m->uid, d->name.c_str(), n->uid);
            auto key = std::make_tuple(a->idx, d->name, m->c->xid);
            copy_done[key]++;
            // was the connection that did it before lost in the meantime?
            // (once per command: it may name several copies of one message)
            if(!lost_of.count(key)){
                // each execution on a connection that is lost may be replayed once
                auto &cs = copy_conn[key];
                auto it = std::find_if(cs.begin(), cs.end(), [&](int x){ return x != c->id && srv_conn_lost(x); });
                lost_of[key] = it != cs.end();
                if(it != cs.end()) cs.erase(it);
                cs.push_back(c->id);
            }
            bool lost = lost_of[key];
            if(copy_done[key] > copy_asked[key] + copy_wild(a->idx, d->name) && lost){
                copy_asked[key]++;
                cx->finding("copy-replayed", "C12", "message xid %llu copied to %s again: the connection on which it was copied first was lost before the answer", (unsigned long long)m->c->xid, d->name.c_str());
            }else if(copy_done[key] > copy_asked[key] + copy_wild(a->idx, d->name))
                cx->fail("C12", "message xid %llu copied to %s %d times, asked for %d times", (unsigned long long)m->c->xid, d->name.c_str(), copy_done[key], copy_asked[key]);
        }
        cx->count("server_copies");
        srv_sync(c, true);
        if(from.empty()) return ok("No messages found.");
        return ok(strf("[COPYUID %u %s %s] Copy completed.", d->uidvld, setstr(from).c_str(), setstr(to).c_str()).c_str());
    }
    if(cmd == "EXPUNGE"){
        if(c->readonly){
            cx->fail("C10", "citm sent EXPUNGE on a mailbox it opened read-only");
            return no("[READ-ONLY] Mailbox is read-only");
        }
        uint32_t top = b->msgs.empty() ? 0 : b->msgs.back()->uid;
        vector<pair<uint32_t,uint32_t>> set = {{1, 0xffffffffu}};
        if(uid && t.size() > 3) set = seqset(t[3].s, top);
        vector<Msg*> del;
        for(auto m : b->msgs) if((m->flags & F_DELETED) && inset(set, m->uid)) del.push_back(m);
        for(auto m : del){
            ora_expunge(c, m);
            cx->ev("server expunged %s uid %u xid %llu", b->name.c_str(), m->uid, (unsigned long long)m->c->xid);
            expunge_msg(a, b, m);
        }
        srv_sync(c, true);
        return ok(strf("[HIGHESTMODSEQ %llu] Expunge completed.", (unsigned long long)b->himod).c_str());
    }
    cx->fail("C20", "citm sent the server a command it cannot mean: %s", quote(line, 80).c_str());
    srv_send(c, tag + " BAD unknown command\r\n");
}

void World::drop_box_conns(Account *a, Box *b){
    box_gone = true;
    for(auto &s : srv) if(s->box == b && !s->closed){
        srv_send(s.get(), "* BYE mailbox went away\r\n");
        srv_close(s.get());
        for(auto &cl : clients) if(cl->acct == a) cl->excused = true;
    }
}

void World::key_add(Account *a, const codec::Key *k){
    a->keys[k->fpr] = k->pub_pem;
    cx->count("key_changes");
}
void World::key_del(Account *a, const string &f){
    a->keys.erase(f);
    cx->count("key_changes");
}

static Box *pick_box(Account *a, int64_t n){
    size_t i = (uint64_t)n % a->boxes.size();
    auto it = a->boxes.begin();
    std::advance(it, i);
    return it->second.get();
}

void World::dev_flags(Account *a, Box *b, Msg *m, int set, int clr){
    int nf = (m->flags | set) & ~clr;
    m->devw.push_back({step, set, clr});
    m->ever |= nf;
    if(nf != m->flags){ m->flags = nf; touch(b, m); }
    cx->ev("dev: %s/%s uid %u %c(%s)", a->user.c_str(), b->name.c_str(), m->uid, set ? '+' : '-', flags_str(set | clr).c_str());
    cx->count("dev_flags");
}

// knob story: how often the other devices act upon a message right after it
// arrived (fresh) or was changed, before everybody has heard of it
void World::story(Account *a, Box *b, Msg *m, bool fresh){
    if(settling || !plan.knob("story") || !rng.pct((unsigned)plan.knob("story"))) return;
    static const char *tales[] = {"f", "x", "fx", "ff", "ffx"};
    const char *t = tales[rng.below(fresh ? 5 : 4)];
    uint64_t due = step;
    for(; *t; t++){
        due += rng.pct(40) ? rng.below(3) : rng.pct(60) ? rng.below(12) : rng.below(60);
        stories.push_back({due, a, b, m, *t});
    }
}

// an upload: others may act on it long before the answer to it arrives
void World::late(SrvConn *c, Box *b, Msg *m){
    size_t n = stories.size();
    story(c->acct, b, m, true);
    if(stories.size() != n && c->pipe && rng.pct(60)){
        c->pipe->hold_to_until = (int64_t)step + 10 + (int64_t)rng.below(150);
        cx->ev("stall P%d", c->pipe->id);
    }
}

void World::tell(size_t i){
    Story s = stories[i];
    stories.erase(stories.begin() + (long)i);
    if(s.b->dead || std::find(s.b->msgs.begin(), s.b->msgs.end(), s.m) == s.b->msgs.end()) return;
    cx->count("dev_stories");
    if(s.act == 'x'){
        cx->ev("dev: %s/%s expunge uid %u xid %llu", s.a->user.c_str(), s.b->name.c_str(), s.m->uid, (unsigned long long)s.m->c->xid);
        expunge_msg(s.a, s.b, s.m);
        cx->count("dev_expunge");
        return;
    }
    int f = (int)rng.below(31) + 1;
    bool set = rng.pct(60);
    dev_flags(s.a, s.b, s.m, set ? f : 0, set ? 0 : f);
}

// what the account's other devices (or the mail delivery agent) do
// item dev <gap> <acct> <what> <x> <y> <z>
void World::dev_op(const Item &it){
    Account *a = accts[(uint64_t)it.arg(1) % accts.size()].get();
    int64_t what = it.arg(2), x = it.arg(3), y = it.arg(4), z = it.arg(5);
    Box *b = pick_box(a, x);
    switch(what){
        case 0: { // new mail
            int n = 1 + (int)(y % 3);
            for(int i = 0; i < n; i++){
                static const int kinds[] = {K_ENC, K_ENC, K_ENC, K_ENC, K_ENC, K_PLAIN, K_PLAIN, K_NOSUBJ, K_NOT4ME, K_CORRUPT};
                int k = plan.knob("mixed_kinds") ? kinds[rng.below(10)] : K_ENC;
                Content *ct = make_content(a, k, z + i);
                Msg *m = deliver(a, b, ct, (int)(rng.pct(25) ? rng.below(32) : 0), rand_date());
                cx->ev("dev: %s/%s new uid %u xid %llu kind %d (%s)", a->user.c_str(), b->name.c_str(), m->uid,
                    (unsigned long long)ct->xid, k, flags_str(m->flags).c_str());
                story(a, b, m, true);
            }
            cx->count("dev_newmail", n);
            break;
        }
        case 1: { // flags
            if(b->msgs.empty()) break;
            Msg *m = b->msgs[(uint64_t)y % b->msgs.size()];
            int f = (int)(z % 31) + 1, set = z & 32 ? f : 0, clr = z & 32 ? 0 : f;
            dev_flags(a, b, m, set, clr);
            break;
        }
        case 2: { // expunge
            if(b->msgs.empty()) break;
            Msg *m = b->msgs[(uint64_t)y % b->msgs.size()];
            cx->ev("dev: %s/%s expunge uid %u xid %llu", a->user.c_str(), b->name.c_str(), m->uid, (unsigned long long)m->c->xid);
            expunge_msg(a, b, m);
            cx->count("dev_expunge");
            break;
        }
        case 3: { // new mailbox
            string n = strf("D%d", (int)(y % 5));
            if(a->box(n)) break;
            make_box(a, n);
            cx->ev("dev: create %s", n.c_str());
            break;
        }
        case 4: { // delete a mailbox
            if(b->name == "INBOX") break;
            drop_box_conns(a, b);
            b->dead = true;
            string n = b->name;
            cx->ev("dev: delete %s", n.c_str());
            a->graveyard.push_back(std::move(a->boxes[n]));
            a->boxes.erase(n);
            cx->count("dev_boxdelete");
            break;
        }
        case 5: { // the mailbox is rebuilt: new uidvalidity, all uids differ
            drop_box_conns(a, b);
            uidvld_changed = true;
            b->uidvld = a->next_uidvld++;
            infile.clear();
            b->gone.clear();
            b->himod += 1;
            // some new servers restart modseqs
            if(y % 3 == 0) b->himod = 1;
            vector<Msg*> old = b->msgs;
            b->msgs.clear();
            b->uidnext = 1 + (uint32_t)(y % 3);
            if(z % 2) std::reverse(old.begin(), old.end());
            for(auto m : old){
                Msg *n = deliver(a, b, m->c, m->flags, m->date);
                n->raw = m->raw;
                n->hidden = m->hidden;
            }
            cx->ev("dev: uidvalidity of %s/%s now %u", a->user.c_str(), b->name.c_str(), b->uidvld);
            cx->count("dev_uidvalidity");
            break;
        }
        case 6: { // another device registers
            vector<codec::Key*> free;
            for(auto &k : keypool){
                bool mine = false;
                for(auto &o : accts) if(o->mykey == k.get()) mine = true;
                if(!mine && !a->keys.count(k->fpr)) free.push_back(k.get());
            }
            if(free.empty()) break;
            codec::Key *k = free[(uint64_t)y % free.size()];
            key_add(a, k);
            cx->ev("dev: key added %s", codec::hex(k->fpr).substr(0, 12).c_str());
            cx->count("dev_keyadd");
            break;
        }
        case 7: { // a device is removed
            vector<string> f;
            for(auto &k : a->keys) if(k.first != a->mykey->fpr || y % 4 == 0) f.push_back(k.first);
            if(f.empty()) break;
            string d = f[(uint64_t)z % f.size()];
            if(d == a->mykey->fpr) box_gone = true;
            key_del(a, d);
            cx->ev("dev: key deleted %s", codec::hex(d).substr(0, 12).c_str());
            cx->count("dev_keydel");
            break;
        }
        case 8: { // expunge several
            vector<Msg*> del;
            for(auto m : b->msgs) if(rng.pct(40)) del.push_back(m);
            for(auto m : del) expunge_msg(a, b, m);
            cx->ev("dev: %s/%s expunge %zu", a->user.c_str(), b->name.c_str(), del.size());
            cx->count("dev_expunge", del.size());
            break;
        }
        case 9: { // rename a mailbox
            if(b->name == "INBOX") break;
            string n = strf("R%d", (int)(y % 4));
            if(a->box(n)) break;
            drop_box_conns(a, b);
            string o = b->name;
            auto u = std::move(a->boxes[o]);
            a->boxes.erase(o);
            u->name = n;
            u->names.insert(n);
            u->uidvld = a->next_uidvld++;   // and the old name's cache is void
            a->boxes[n] = std::move(u);
            cx->ev("dev: rename %s -> %s", o.c_str(), n.c_str());
            break;
        }
        case 10: { // mail sent before the key list was updated: unknown recipients
            Content *ct = make_content(a, K_ENC, z);
            Msg *m = deliver(a, b, ct, 0, rand_date());
            cx->ev("dev: %s/%s new uid %u xid %llu", a->user.c_str(), b->name.c_str(), m->uid, (unsigned long long)ct->xid);
            break;
        }
    }
}
