// The simulated world: one citm process, its disk, its network, the mail
// server and the mail clients, under one seeded scheduler.
#include "world.h"
#include <csignal>

World *W = nullptr;
const char *ROOT = "/sim/citm";

// ---------------------------------------------------------------- upcalls
extern "C" void sim_connect_requested(gl_connect *cn){
    Connect c{cn, W->next_pipe, false, 0};
    if(W->connfail > 0){ W->connfail--; c.fail = true; }
    W->connects.push_back(c);
}
extern "C" void sim_conn_freed(gl_conn *g){
    for(auto &p : W->pipes) if(p->g == g) p->dead = true;
}
// what a fault can be aimed at
static const char *const where[] = {"", "/.cache.tmp", "/.cache", "/tmp/", "/cur/"};

static void on_crash(bool power){
    World *w = W;
    if(!w->in_citm){ fprintf(stderr, "sim: crash outside of the citm\n"); abort(); }
    w->in_citm = false;
    longjmp(w->jb, power ? 2 : 1);
}
static void on_op(const char *op, const string &path, int err){
    if(!cx) return;
    cx->ev("fs %s %s%s", op, path.c_str(), err ? " FAILS" : "");
    if(W) W->check_paths(op, path);
    size_t cur;
    if(W && !err && !strcmp(op, "rename-to") && (cur = path.rfind("/cur/")) != string::npos){
        size_t comma = path.find(',', cur);
        if(comma != string::npos) W->infile.insert(path.substr(0, cur) + "," + std::to_string(atoi(path.c_str() + comma + 1)));
    }
    if(op[0] == 'r' && !strcmp(op, "rename-to") && path.size() > 7 && !path.compare(path.size() - 7, 7, "/.cache")) cx->count("logs_compacted_or_repaired");
}
static void on_abort(int){
    const char m[] = "sim: the citm aborted\n";
    if(write(2, m, sizeof(m) - 1)){}
    _exit(78);
}

void World::pump(){
    enter([&]{
        if(gl_sched_run(sched, 20000) < 0) cx->fail("*", "the citm never comes to rest (livelock)");
    });
}

Pipe *World::new_pipe(gl_conn *g, bool up){
    auto p = std::make_unique<Pipe>();
    p->id = next_pipe++;
    p->up = up;
    p->g = g;
    p->s = gl_conn_stream(g);
    int64_t ch = plan.knob("chunk", 3);
    p->chunk = ch == 4 ? (int)rng.below(4) : (int)ch;
    p->weight = 1 + (int)rng.below(6);
    pipes.push_back(std::move(p));
    return pipes.back().get();
}

size_t World::segment(Pipe *p, size_t have){
    switch(p->chunk){
        case 0: return have;
        case 1: return 1 + rng.below(have);
        case 2: return 1 + rng.below(std::min<size_t>(have, rng.pct(90) ? 12 : 600));
        default: return rng.pct(60) ? have : 1 + rng.below(have);
    }
}

void World::start_citm(){
    incarnation++;
    canceling = false;
    age_logs();
    sched = gl_sched_new();
    citm = nullptr;
    gl_citm *c = nullptr;
    in_citm = false;
    // startup does no more than remember its parameters
    c = gl_citm_new(sched, ROOT);
    citm = c;
    cx->ev("citm starts (%d)", incarnation);
}

// A log of a mailbox holds one line per change and is compacted at 1000 lines.
// Writing each line several times, in place, is what a mailbox with more
// history looks like, and means the same.
void World::age_logs(){
    size_t target = (size_t)plan.knob("age");
    if(!target) return;
    for(auto &path : vfs::list(ROOT)){
        if(path.size() < 7 || path.compare(path.size() - 7, 7, "/.cache")) continue;
        string d, sy;
        if(vfs::is_open(path) || !vfs::get(path, d) || !vfs::get_synced(path, sy) || sy != d) continue;
        vector<string> lines;
        size_t i = 0;
        for(size_t n; (n = d.find('\n', i)) != string::npos; i = n + 1) lines.push_back(d.substr(i, n + 1 - i));
        if(lines.size() < 2 || lines.size() * 6 > target) continue;
        size_t k = target / lines.size(), more = target % lines.size();
        string out;
        for(size_t l = 0; l < lines.size(); l++) for(size_t x = 0; x < k + (l >= lines.size() - more); x++) out += lines[l];
        out += d.substr(i);
        vfs::replace(path, out, out);
        cx->count("logs_aged");
    }
}

void World::kill_all_pipes(){
    for(auto &p : pipes) if(!p->dead){ p->dead = true; p->to_citm.clear(); }
    for(auto &s : srv){ s->closed = true; s->box = nullptr; s->cmds.clear(); s->idle_tag.clear(); s->xkey_tag.clear(); }
    for(auto &c : clients){
        if(c->pipe && !c->closed){ c->excused = true; cli_closed(c.get(), false); }
        c->pipe = nullptr;
    }
    connects.clear();
}

void World::after_crash(bool power){
    faulty = true;
    faulty_mem = true;
    kill_all_pipes();
    if(power){ power_faulty = true; vfs::power_loss(rng); }
    else vfs::drop_handles();
    vfs::disarm_all();
    sched = nullptr;
    citm = nullptr;     // its memory is gone with the process
    start_citm();
}

// ask the citm to stop and wait for it
void World::restart_clean(){
    if(!citm || stop()) return;
    cx->ev("citm is asked to stop");
    cx->count("clean_stops");
    canceling = true;
    for(auto &c : clients) c->excused = true;
    int inc = incarnation;
    enter([&]{ gl_citm_cancel(citm); });
    quiesce(300000, "shutdown");
    if(stop() || inc != incarnation) return;
    bool idle = gl_citm_idle(citm);
    for(auto &p : pipes) if(!p->dead) idle = false;
    if(!idle){
        string what;
        for(auto &p : pipes) if(!p->dead) what += strf(" %s-pipe %d", p->up ? "server" : "client", p->id);
        cx->fail("C14", "a stopped citm never lets go of its connections:%s", what.c_str());
        // what is left cannot be freed
        kill_all_pipes();
        citm = nullptr; sched = nullptr;
        start_citm();
        return;
    }
    enter([&]{ gl_citm_free(citm); });
    if(inc != incarnation) return;
    if(vfs::open_handles()) cx->fail("C14", "a stopped citm left %zu files open", vfs::open_handles());
    if(!faulty_mem && mem::live_count()){
        cx->fail("C14", "a stopped citm did not free: %s", mem::report().c_str());
        faulty_mem = true;
    }
    kill_all_pipes();
    citm = nullptr; sched = nullptr;
    start_citm();
}

void World::setup(){
    W = this;
    vfs::reset(plan.seed);
    vfs::on_crash = on_crash;
    vfs::on_op = nullptr;
    codec::rand_rng().reseed(plan.seed ^ 0xabcdef);
    int na = 1 + (int)(plan.knob("accounts", 1) > 1);
    for(int i = 0; i < 10; i++){
        static codec::Key cache[10];
        if(!cache[i].pkey) cache[i] = codec::load(SIM_KEYS[i]);
        keypool.push_back(std::make_unique<codec::Key>(cache[i]));
    }
    vfs::mkdirs(ROOT);
    for(int i = 0; i < na; i++){
        auto a = std::make_unique<Account>();
        a->idx = i;
        a->user = i ? "bob@x" : "alice@x";
        a->pass = i ? "pw2" : "pw1";
        a->mykey = keypool[(size_t)i].get();
        a->never_alert.insert(a->mykey->fpr);
        a->next_uidvld = 100 + (uint32_t)rng.below(50);
        if(!plan.knob("new_device")) a->keys[a->mykey->fpr] = a->mykey->pub_pem;
        for(int k = 0; k < plan.knob("peers", 1); k++){
            auto *p = keypool[2 + (size_t)(i * 2 + k) % 4].get();
            a->keys[p->fpr] = p->pub_pem;
        }
        string kd = string(ROOT) + "/" + a->user + "/keys";
        vfs::mkdirs(kd);
        vfs::put(kd + "/mykey.pem", a->mykey->priv_pem);
        accts.push_back(std::move(a));
        Account *ap = accts.back().get();
        make_box(ap, "INBOX");
        for(int b = 0; b < plan.knob("boxes", 1); b++) make_box(ap, strf("Box%d", b));
        for(auto &b : ap->boxes){
            int64_t n = plan.knob("mails", 3);
            n = n ? rng.range(0, n) : 0;
            for(int64_t k = 0; k < n; k++){
                static const int kinds[] = {K_ENC, K_ENC, K_ENC, K_PLAIN, K_NOSUBJ, K_NOT4ME, K_CORRUPT};
                Content *c = make_content(ap, plan.knob("mixed_kinds") ? kinds[rng.below(7)] : K_ENC, (int64_t)rng.below(8));
                deliver(ap, b.second.get(), c, rng.pct(40) ? (int)rng.below(32) : 0, rand_date());
            }
            // a past: some uids are gone already
            if(plan.knob("past") && b.second->msgs.size() > 1 && rng.pct(50)) expunge_msg(ap, b.second.get(), b.second->msgs[0]);
        }
    }
    int nc = (int)plan.knob("clients", 2);
    for(int i = 0; i < nc; i++){
        auto c = std::make_unique<Client>();
        c->id = i;
        c->acct = accts[(size_t)i % accts.size()].get();
        clients.push_back(std::move(c));
    }
    vfs::on_op = on_op;
    mem::start();
    start_citm();
}

enum { E_DELIVER, E_EOF, E_TAKE, E_SHUT, E_RESET, E_FINC, E_FINOK, E_CONN, E_CONNC, E_EXEC, E_PUSH, E_SEND, E_PUMP };

bool World::one_event(){
    struct Ev { int kind, weight; void *p; };
    vector<Ev> evs;
    bool held = false;
    step++;
    for(size_t i = 0; i < stories.size();) if(stories[i].due <= step) tell(i); else i++;
    if(gl_sched_pending(sched)){
        if(!plan.knob("lazy_sched") || rng.below(100) >= (uint64_t)plan.knob("lazy_sched")){
            pump();
            return true;
        }
        evs.push_back({E_PUMP, 4, nullptr});
    }
    for(auto &pp : pipes){
        Pipe *p = pp.get();
        if(p->dead || gl_awaited(p->s)) continue;
        int w = p->weight;
        if(gl_canceled(p->s)){
            if(gl_has_await(p->s)) evs.push_back({E_FINC, w, p});
            continue;
        }
        if(p->eof_fed && gl_shutdown_responded(p->s) && !gl_nwrites(p->s) && gl_has_await(p->s)){
            evs.push_back({E_FINOK, w, p});
            continue;
        }
        if(p->reset && !p->eof_fed && (gl_nreads(p->s) || gl_nwrites(p->s) || gl_want_shutdown(p->s))){
            evs.push_back({E_RESET, w, p});
            continue;
        }
        if(p->reset && (gl_nwrites(p->s) || gl_want_shutdown(p->s))){ evs.push_back({E_RESET, w, p}); continue; }
        if(gl_want_read(p->s)){
            if(!p->to_citm.empty()){
                if(p->hold_to_until <= (int64_t)step) evs.push_back({E_DELIVER, w * 2, p}); else held = true;
            }else if(p->peer_eof && !p->eof_fed){
                if(p->hold_to_until <= (int64_t)step) evs.push_back({E_EOF, w, p}); else held = true;
            }
        }
        if(gl_want_write(p->s)){
            if(p->hold_from_until <= (int64_t)step) evs.push_back({E_TAKE, w * 2, p}); else held = true;
        }else if(gl_want_shutdown(p->s) && !gl_nwrites(p->s)){
            evs.push_back({E_SHUT, w, p});
        }
    }
    for(size_t i = 0; i < connects.size(); i++){
        if(gl_connect_canceled(connects[i].cn)) evs.push_back({E_CONNC, 4, (void*)i});
        else if(connects[i].hold_until <= (int64_t)step) evs.push_back({E_CONN, 4, (void*)i});
        else held = true;
    }
    for(auto &s : srv){
        if(s->closed) continue;
        if(!s->cmds.empty()) evs.push_back({E_EXEC, 8, s.get()});
        else if(srv_can_push(s.get())) evs.push_back({E_PUSH, 3, s.get()});
    }
    for(auto &c : clients) if(cli_can_send(c.get())) evs.push_back({E_SEND, 6, c.get()});
    if(evs.empty() && !held && !stories.empty()){ step = std::max(step, stories[0].due); return true; }
    if(evs.empty()){
        if(!held) return false;
        for(auto &p : pipes) p->hold_to_until = p->hold_from_until = 0;
        for(auto &c : connects) c.hold_until = 0;
        simms += 30000;
        return true;
    }
    uint64_t tot = 0;
    for(auto &e : evs) tot += (uint64_t)e.weight;
    uint64_t r = rng.below(tot);
    Ev ev = evs[0];
    for(auto &e : evs){ if(r < (uint64_t)e.weight){ ev = e; break; } r -= (uint64_t)e.weight; }
    simms += (int64_t)rng.below(40);
    vfs::now = 1700000000 + (time_t)(simms / 1000) + skew;
    Pipe *p = (Pipe*)ev.p;
    switch(ev.kind){
        case E_PUMP: pump(); break;
        case E_DELIVER: {
            size_t n = std::min(segment(p, p->to_citm.size()), gl_want_read(p->s));
            string d = p->to_citm.substr(0, n);
            p->to_citm.erase(0, n);
            cx->ev("P%d deliver %zu", p->id, n);
            enter([&]{ gl_feed(p->s, d.data(), d.size()); });
            break;
        }
        case E_EOF:
            cx->ev("P%d eof", p->id);
            p->eof_fed = true;
            enter([&]{ gl_feed_eof(p->s); });
            break;
        case E_TAKE: {
            string d(segment(p, gl_want_write(p->s)), 0);
            size_t n = 0;
            int inc = incarnation;
            cx->ev("P%d take %zu", p->id, d.size());
            enter([&]{ n = gl_take_write(p->s, &d[0], d.size()); });
            if(inc != incarnation) break;
            d.resize(n);
            if(p->peer_gone) break;
            if(p->sc) srv_bytes(p->sc, d);
            else if(p->cl) cli_bytes(p->cl, d);
            break;
        }
        case E_SHUT: {
            cx->ev("P%d shutdown", p->id);
            int inc = incarnation;
            enter([&]{ gl_do_shutdown(p->s); });
            if(inc != incarnation) break;
            if(p->sc) srv_close(p->sc);
            if(p->cl && !p->cl->closed){
                Client *c = p->cl;
                if(!c->bye && !excused(c) && !canceling && !c->sent_logout)
                    cx->fail("C08", "the citm closed client %d's connection without a BYE", c->id);
                cli_closed(c, true);
            }
            p->peer_eof = true;
            break;
        }
        case E_RESET: {
            int how = p->reset;
            cx->ev("P%d reset %d", p->id, how);
            if(p->sc) p->sc->closed = true, p->sc->box = nullptr;
            enter([&]{ gl_finish(p->s, how); });
            break;
        }
        case E_FINC: {
            cx->ev("P%d canceled", p->id);
            if(p->sc){ p->sc->closed = true; p->sc->box = nullptr; }
            if(p->cl && !p->cl->closed){
                Client *c = p->cl;
                if(!c->bye && !excused(c) && !canceling && !c->sent_logout)
                    cx->fail("C08", "the citm dropped client %d without a BYE", c->id);
                cli_closed(c, true);
            }
            enter([&]{ gl_finish(p->s, GL_CANCELED); });
            break;
        }
        case E_FINOK:
            cx->ev("P%d done", p->id);
            enter([&]{ gl_finish(p->s, GL_OK); });
            break;
        case E_CONNC: case E_CONN: {
            size_t i = (size_t)ev.p;
            Connect c = connects[i];
            connects.erase(connects.begin() + (long)i);
            if(ev.kind == E_CONNC){
                cx->ev("connect canceled");
                enter([&]{ gl_connect_fail(c.cn, GL_CANCELED); });
                break;
            }
            if(c.fail){
                cx->ev("connect fails");
                cx->count("fault_connect");
                for(auto &cl : clients) cl->excused = true;
                enter([&]{ gl_connect_fail(c.cn, GL_CONN); });
                break;
            }
            gl_conn *volatile g = nullptr;
            int inc = incarnation;
            enter([&]{ g = gl_connect_ok(c.cn); });
            if(inc != incarnation || !g) break;
            Pipe *np = new_pipe(g, true);
            auto s = std::make_unique<SrvConn>();
            s->id = np->id;
            s->pipe = np;
            np->sc = s.get();
            srv.push_back(std::move(s));
            cx->ev("P%d connected upstream", np->id);
            cx->count("server_conns");
            srv_send(srv.back().get(), "* OK [CAPABILITY IMAP4rev1 ENABLE UNSELECT IDLE UIDPLUS QRESYNC CONDSTORE XKEY] ready.\r\n");
            break;
        }
        case E_EXEC: srv_exec((SrvConn*)ev.p); break;
        case E_PUSH: srv_push((SrvConn*)ev.p); break;
        case E_SEND: cli_send((Client*)ev.p); break;
    }
    if((step & 3) == 0) cx->state(abstract_state());
    return true;
}

uint64_t World::abstract_state(){
    uint64_t h = 7;
    auto mx = [&](uint64_t v){ h = mix64(h ^ v); };
    for(auto &c : clients){
        if(!c->pipe || c->closed){ mx(1); continue; }
        uint64_t st = (uint64_t)c->greeted | c->auth << 1 | c->selected << 2 | (uint64_t)c->v.ro << 3;
        for(auto &m : c->inflight) st = st * 37 + (uint64_t)m->op + 1;
        st = st * 11 + std::min<size_t>(c->v.e.size(), 6);
        mx(st * 2 + 1000);
    }
    for(auto &s : srv){
        if(s->closed) continue;
        uint64_t st = (uint64_t)(s->box != nullptr) | (uint64_t)!s->idle_tag.empty() << 1 | (uint64_t)!s->xkey_tag.empty() << 2 | (uint64_t)s->is_xkey << 3 | (uint64_t)std::min<size_t>(s->cmds.size(), 3) << 4;
        st |= (uint64_t)(s->pipe->to_citm.size() > 0) << 8;
        mx(st + 5000);
    }
    for(auto &a : accts) for(auto &b : a->boxes) mx(std::min<size_t>(b.second->msgs.size(), 7) + 9000);
    mx(connects.size());
    return h;
}

void World::check_stuck(const char *when){
    if(stop()) return;
    for(auto &c : clients){
        if(!c->pipe || c->closed) continue;
        if(!c->greeted){
            cx->fail("C08", "%s: client %d was never greeted, and nothing is left to happen", when, c->id);
            continue;
        }
        for(auto &m : c->inflight){
            if(m->op == O_IDLE && m->got_plus && !m->done_sent) continue;
            if(c->bye){ if(!excused(c.get()) && !canceling) cx->fail("C08", "%s: client %d got BYE; its connection was never closed", when, c->id); continue; }
            cx->fail("C08", "%s: client %d waits for ever for the answer to %s", when, c->id, quote(m->text, 80).c_str());
            return;
        }
    }
}

void World::quiesce(int64_t cap, const char *what){
    int64_t n = 0;
    while(!stop()){
        if(!one_event()) break;
        if(++n > cap){
            cx->fail("*", "%s: no end after %lld events (livelock)", what, (long long)n);
            return;
        }
    }
    cx->stats["max_quiesce"] = std::max(cx->stats["max_quiesce"], n);
    check_stuck(what);
}

static Pipe *pick_pipe(World *w, bool up, int64_t n){
    vector<Pipe*> o;
    for(auto &p : w->pipes) if(!p->dead && p->up == up && !gl_awaited(p->s) && !gl_canceled(p->s)) o.push_back(p.get());
    return o.empty() ? nullptr : o[(uint64_t)n % o.size()];
}

void World::do_item(const Item &it){
    const string &k = it.kind;
    if(k == "sess") return sess_op(it);
    if(k == "dev"){ dev_op(it); return; }
    if(k == "net"){
        int64_t what = (int64_t)((uint64_t)it.arg(1) % 8);
        Pipe *p;
        switch(what){
            case 0: case 1: // the server goes away
                if(!(p = pick_pipe(this, true, it.arg(2))) || p->peer_eof || p->reset) return;
                faulty = true;
                cx->ev("fault: P%d %s", p->id, what ? "server closes" : "reset");
                if(what){ cx->count("fault_server_close"); if(p->sc) srv_close(p->sc); }
                else{
                    cx->count("fault_reset");
                    static const int how[] = {GL_RESET, GL_PIPE, GL_TIMEDOUT, GL_CONN};
                    p->reset = how[(uint64_t)it.arg(3) % 4];
                    // bytes on the wire are lost
                    p->to_citm.resize(rng.below(p->to_citm.size() + 1));
                    if(p->sc){ p->sc->closed = true; p->sc->box = nullptr; p->sc->cmds.clear(); }
                }
                for(auto &c : clients) c->excused = true;
                return;
            case 2: case 3: { // a client goes away
                Client *c = clients[(uint64_t)it.arg(2) % clients.size()].get();
                if(c->closed || !c->pipe) return;
                cx->count(what == 2 ? "fault_client_reset" : "fault_client_close");
                cli_disconnect(c, what == 2);
                return;
            }
            case 4: case 5: { // a stall
                p = pick_pipe(this, it.arg(2) & 1, it.arg(3));
                if(!p) return;
                cx->count("fault_stall");
                int64_t until = (int64_t)step + 20 + (int64_t)((uint64_t)it.arg(4) % 400);
                if(what == 4) p->hold_to_until = until; else p->hold_from_until = until;
                cx->ev("stall P%d", p->id);
                return;
            }
            case 6:
                faulty = true;
                connfail = 1 + (int)((uint64_t)it.arg(2) % 3);
                return;
            case 7:
                srvno = 1 + (int)((uint64_t)it.arg(2) % 12);
                return;
        }
        return;
    }
    if(k == "crash" || k == "power"){
        bool power = k == "power";
        int64_t n = it.arg(1);
        if(n == 0){
            cx->ev("the citm %s now", power ? "loses power" : "is killed");
            cx->count(power ? "fault_powerloss" : "fault_crash");
            after_crash(power);
        }else{
            vfs::arm(vfs::Fault{power ? vfs::Fault::POWER : vfs::Fault::CRASH, (int)n, false, where[(uint64_t)it.arg(2) % 5], (int)it.arg(3)});
        }
        return;
    }
    if(k == "disk"){
        static const vfs::Fault::Kind kinds[] = {vfs::Fault::EIO_, vfs::Fault::ENOSPC_, vfs::Fault::SHORT_};
        int kind = (int)((uint64_t)it.arg(1) % 3);
        if(kind != 2){ disk_faulty = true; faulty = true; }
        cx->count(kind == 2 ? "fault_short_write_armed" : "fault_disk");
        for(int64_t i = 0; i < 1 + (int64_t)((uint64_t)it.arg(3) % 4); i++)
            vfs::arm(vfs::Fault{kinds[kind], (int)(1 + (uint64_t)it.arg(2) % 80 + (uint64_t)i), false, where[(uint64_t)it.arg(4) % 5], 0});
        return;
    }
    if(k == "time"){
        skew += it.arg(1);
        if(it.arg(1) < 0) clock_went_back = true;
        cx->ev("the clock jumps by %lld s", (long long)it.arg(1));
        cx->count("fault_clock_jump");
        return;
    }
    if(k == "stop") return restart_clean();
    if(k == "age") return age_logs();
}

void World::settle(){
    cx->ev("-- faults stop --");
    settling = true;
    vfs::disarm_all();
    srvno = connfail = 0;
    for(auto &p : pipes) p->hold_to_until = p->hold_from_until = 0;
    quiesce(300000, "settle");
    if(stop()) return;
    if(disk_faulty){
        // the process is restarted, as an operator would do after a full disk
        after_crash(false);
    }
    auto mail_ok = [&](Client *c)->Box*{
        if(!c->pipe || c->closed || !c->selected || c->bye) return nullptr;
        Box *b = c->acct->box(c->v.name);
        if(!b || !b->names.count(c->v.name)) return nullptr;
        DnEpoch *ep = cli_epoch(c);
        for(auto &e : c->v.e) if(!e.uid || e.flags < 0 || !ep->msgs[e.uid].complete()) return nullptr;
        return b;
    };
    // sessions that are still there must have caught up: idling ones by
    // themselves, others when asked
    for(auto &c : clients){
        if(!c->pipe || c->closed) continue;
        Cmd n; n.op = O_NOOP;
        cli_queue(c.get(), n); cli_queue(c.get(), n);
        cli_queue(c.get(), n);
    }
    quiesce(300000, "settle NOOP");
    if(stop()) return;
    for(auto &c : clients) if(Box *b = mail_ok(c.get())){
        if(c->excused && faulty) continue;
        ora_check_final(c->acct, b, c.get());
        cx->count("live_compares");
    }
    if(stop()) return;
    // what a restart finds must be the same
    if(plan.knob("restart_end") == 1) restart_clean();
    else if(plan.knob("restart_end") == 2) after_crash(false);
    if(stop()) return;
    // fresh sessions see what the server has
    for(auto &a : accts){
        auto uc = std::make_unique<Client>();
        Client *c = uc.get();
        c->id = 100 + a->idx;
        c->acct = a.get();
        clients.push_back(std::move(uc));
        int tries = faulty || box_gone ? 3 : 1;
        set<string> done;
        bool opened = false;
        for(int t = 0; t < tries && !stop() && !opened; t++){
            if(c->pipe && !c->closed) cli_disconnect(c, false);
            quiesce(300000, "final session");
            if(stop()) return;
            cli_connect(c);
            if(!c->pipe) continue;
            { Cmd l; l.op = O_LOGIN; cli_queue(c, l); }
            quiesce(300000, "final login");
            if(stop()) return;
            opened = true;
            vector<string> names;
            for(auto &b : a->boxes) names.push_back(b.first);
            for(auto &n : names){
                if(done.count(n)) continue;
                Cmd s; s.op = rng.pct(70) ? O_SELECT : O_EXAMINE; s.is_auto = true; s.box = n;
                cli_queue(c, s);
                { Cmd x; x.op = O_NOOP; cli_queue(c, x); }
                quiesce(300000, "final select");
                if(stop()) return;
                Box *b = mail_ok(c);
                if(!b || c->v.name != n){ opened = false; break; }
                ora_check_final(a.get(), b, c);
                done.insert(n);
                uint32_t first = 0;
                for(size_t i = c->v.e.size(); i-- > 0;) if(!(c->v.e[i].flags & F_SEEN)) first = (uint32_t)i + 1;
                if(!faulty && c->v.unseen != first)
                    cx->fail("C17", "SELECT of %s said the first unseen message is %u, it is %u", n.c_str(), c->v.unseen, first);
                if(stop()) return;
                // STATUS now, of the mailbox just seen
                if(!faulty && !had_ghost(c->acct, n)){
                    Cmd x; x.op = O_STATUS; x.box = n; x.was_auto_settle = true;
                    x.a = (int64_t)c->v.e.size();
                    x.b = 0;
                    for(auto &e : c->v.e) if(!(e.flags & F_SEEN)) x.b++;
                    cli_queue(c, x);
                    quiesce(300000, "final status");
                    if(stop()) return;
                }
            }
            if(opened){ Cmd x; x.op = O_LIST; cli_queue(c, x); quiesce(300000, "final list"); }
            if(stop()) return;
        }
        if(!opened && !stop()){
            cx->fail("C08", "after all faults stopped, %s's mail cannot be opened", a->user.c_str());
            conv_fail("C01", "after all faults stopped, %s's mail cannot be opened", a->user.c_str());
            return;
        }
    }
    for(auto &c : clients) if(c->pipe && !c->closed && c->greeted && !c->bye && rng.pct(60)){
        Cmd x; x.op = O_LOGOUT; cli_queue(c.get(), x);
    }
    quiesce(300000, "logout");
    if(stop()) return;
    restart_clean();
}

void World::run(){
    setup();
    for(auto &it : plan.items){
        if(stop()) break;
        for(int64_t g = 0; g < it.arg(0) && !stop(); g++) if(!one_event()){ check_stuck("at rest"); break; }
        if(stop()) break;
        do_item(it);
    }
    if(!stop()){ quiesce(300000, "work"); }
    if(!stop()) settle();
    mem::stop();
    vfs::on_op = nullptr;
    cx->stats["sim_ms"] += simms;
    cx->stats["fs_ops"] += (int64_t)vfs::stats.mut_ops;
    cx->stats["fault_eio_hit"] += (int64_t)vfs::stats.eio;
    cx->stats["fault_enospc_hit"] += (int64_t)vfs::stats.enospc;
    cx->stats["fault_short_write_hit"] += (int64_t)vfs::stats.short_writes;
    cx->stats["fault_torn_write"] += (int64_t)vfs::stats.torn_writes;
    cx->stats["powerloss_ops_lost"] += (int64_t)vfs::stats.lost_ops;
    cx->stats["powerloss_bytes_lost"] += (int64_t)vfs::stats.dropped_bytes;
    vfs::stats = vfs::Stats();
    // a run counts if mail was really read and compared
    cx->stats["nontrivial"] = cx->stats["bodies_read"] > 0 && (cx->stats["final_compares"] > 0 || stop());
}

// ------------------------------------------------------------- generation
static Plan gen(uint64_t seed, const string &prop){
    Rng r(seed * 0x2545f4914f6cdd1dull + h64(prop));
    Plan p;
    p.seed = seed;
    auto is = [&](const char *x){ return prop == x; };
    bool crash = is("C04"), disk = is("C11"), uv = is("C09");
    bool any = is("ALL");
    int w[O_NOPS] = {0};
    w[O_SELECT] = 6; w[O_EXAMINE] = 2; w[O_NOOP] = 8; w[O_CHECK] = 1; w[O_META] = 2; w[O_BODY] = 2;
    w[O_STORE] = 14; w[O_EXPUNGE] = 6; w[O_CLOSE] = 3; w[O_COPY] = 4; w[O_APPEND] = 4; w[O_SEARCH] = 3;
    w[O_IDLE] = 6; w[O_LIST] = 1; w[O_LSUB] = 1; w[O_STATUS] = 2; w[O_CREATE] = 1; w[O_DELETE] = 1; w[O_RENAME] = 0;
    w[O_SUB] = 1; w[O_LOGOUT] = 3; w[O_CAPA] = 1; w[O_UNSUP] = 1; w[O_BADLOGIN] = 1; w[O_DISC] = 2; w[O_FETCHMIX] = 5;
    int wdev[11] = {10, 8, 6, 1, 0, 0, 0, 0, 2, 0, 2};
    int faults = 0; // percent of items that are network faults
    p.knobs["chunk"] = (int64_t)r.below(5);
    p.knobs["clients"] = r.range(1, 3);
    p.knobs["accounts"] = r.pct(15) ? 2 : 1;
    p.knobs["mails"] = r.range(0, 5);
    p.knobs["boxes"] = r.range(0, 2);
    p.knobs["peers"] = r.range(0, 2);
    p.knobs["past"] = r.below(2);
    p.knobs["select_order"] = r.below(2);
    p.knobs["vanish_superset"] = r.pct(20);
    p.knobs["mixed_kinds"] = r.pct(30);
    p.knobs["lazy_sched"] = r.pct(40) ? r.range(10, 60) : 0;
    p.knobs["restart_end"] = (int64_t)r.below(3);
    p.knobs["nobody"] = r.pct(8);
    p.knobs["new_device"] = r.pct(15);
    p.knobs["story"] = r.pct(60) ? r.range(10, 80) : 0;
    if(is("C02")){ w[O_STORE] = 10; w[O_EXPUNGE] = 12; w[O_NOOP] = 10; wdev[2] = 12; wdev[0] = 14; wdev[8] = 5; p.knobs["del_bias"] = 40; p.knobs["clients"] = r.range(2, 4); }
    if(is("C03")){ w[O_SELECT] = 10; wdev[0] = 16; wdev[2] = 8; wdev[4] = 1; wdev[3] = 2; p.knobs["mixed_kinds"] = r.pct(60); faults = 4; crash = r.pct(40); }
    if(is("C05") || is("C06")){ p.knobs["del_bias"] = 50; w[O_EXPUNGE] = 14; w[O_CLOSE] = 8; w[O_SELECT] = 9; wdev[1] = 10; faults = 5; crash = r.pct(25); p.knobs["clients"] = r.range(2, 4); uv = r.pct(20); }
    if(is("C07")){ w[O_STORE] = 34; w[O_FETCHMIX] = 8; wdev[1] = 16; w[O_EXPUNGE] = 2; p.knobs["clients"] = r.range(2, 4); faults = 3; crash = r.pct(15); }
    if(is("C08")){ faults = r.pct(60) ? 14 : 0; w[O_UNSUP] = 5; w[O_IDLE] = 10; w[O_LOGOUT] = 5; w[O_DISC] = 5; wdev[4] = r.pct(20); }
    if(is("C10")){ w[O_EXAMINE] = 22; w[O_SELECT] = 2; w[O_STORE] = 14; w[O_EXPUNGE] = 8; w[O_CLOSE] = 8; w[O_FETCHMIX] = 14; p.knobs["clients"] = r.range(2, 4); }
    if(is("C12")){ w[O_COPY] = 20; w[O_APPEND] = 22; faults = r.pct(40) ? 6 : 0; p.knobs["boxes"] = r.range(1, 3); }
    if(is("C13")){ p.knobs["accounts"] = 2; p.knobs["clients"] = r.range(2, 4); w[O_BADLOGIN] = 8; w[O_LOGOUT] = 6; w[O_APPEND] = 8; }
    if(is("C14")){ faults = r.pct(60) ? 10 : 0; w[O_DISC] = 8; w[O_LOGOUT] = 8; }
    if(is("C15")){ wdev[6] = 14; wdev[7] = 4; wdev[10] = 6; p.knobs["new_device"] = r.pct(40); w[O_NOOP] = 12; faults = r.pct(30) ? 5 : 0; crash = r.pct(25); p.knobs["mixed_kinds"] = r.pct(30); }
    if(is("C16")){ p.knobs["mixed_kinds"] = 1; wdev[0] = 20; w[O_APPEND] = 10; wdev[6] = r.pct(30) ? 3 : 0; p.knobs["peers"] = r.range(0, 3); }
    if(is("C17")){ w[O_SEARCH] = 22; w[O_STATUS] = 8; w[O_LIST] = 4; w[O_CREATE] = 3; w[O_DELETE] = 2; p.knobs["mixed_kinds"] = r.pct(50); }
    if(is("C19")){ w[O_FETCHMIX] = 24; w[O_APPEND] = 10; wdev[0] = 14; crash = r.pct(20); }
    if(is("C20")){ p.knobs["chunk"] = r.pct(50) ? 2 : 4; faults = 4; }
    if(is("C01")){ faults = r.pct(50) ? 5 : 0; }
    if(uv || is("C09")){ wdev[5] = 6; w[O_CLOSE] += 4; w[O_EXPUNGE] += 4; p.knobs["del_bias"] = 50; faults = std::max(faults, 4); crash = crash || r.pct(15); }
    if(any){ faults = r.pct(50) ? 6 : 0; crash = r.pct(30); disk = r.pct(10); if(r.pct(15)) wdev[5] = 3; if(r.pct(25)){ wdev[6] = 4; wdev[7] = 2; } wdev[4] = r.pct(20); }
    if(r.pct(20)) wdev[9] = 0;
    int items = (int)r.range(6, r.pct(20) ? 80 : 36);
    int ncrash = crash ? (int)r.range(1, 4) : 0, ndisk = disk ? (int)r.range(1, 4) : 0;
    bool powers = r.pct(50);
    int64_t nclients = p.knobs["clients"];
    auto pickw = [&](int *ws, int n){ int t = 0; for(int i = 0; i < n; i++) t += ws[i]; int x = (int)r.below((uint64_t)t); for(int i = 0; i < n; i++){ if(x < ws[i]) return i; x -= ws[i]; } return 0; };
    auto gap = [&]()->int64_t{ return r.pct(25) ? 0 : r.pct(60) ? (int64_t)r.below(15) : r.pct(80) ? (int64_t)r.below(80) : 500; };
    int devpct = (int)r.range(10, 45);
    // the first few items bring sessions up
    for(int64_t c = 0; c < nclients; c++) if(r.pct(80)) p.items.push_back({"sess", {gap(), c, r.pct(80) ? O_SELECT : O_EXAMINE, (int64_t)r.below(8), 0, 0}});
    for(int i = 0; i < items; i++){
        Item it;
        if(faults && r.pct((unsigned)faults)){
            it.kind = "net";
            it.a = {gap(), (int64_t)r.below(8), (int64_t)r.below(100), (int64_t)r.below(100), (int64_t)r.below(1000)};
        }else if(r.pct((unsigned)devpct)){
            it.kind = "dev";
            it.a = {gap(), (int64_t)r.below(2), pickw(wdev, 11), (int64_t)r.below(100), (int64_t)r.below(1000), (int64_t)r.below(1000)};
        }else{
            it.kind = "sess";
            it.a = {gap(), (int64_t)r.below((uint64_t)nclients), pickw(w, O_NOPS), (int64_t)r.below(1000), (int64_t)r.below(1000), (int64_t)r.below(100000)};
        }
        p.items.push_back(it);
    }
    auto at = [&]()->long{ return (long)r.below(p.items.size() + 1); };
    for(int i = 0; i < ncrash; i++){
        bool pw = powers && r.pct(50);
        long k = at();
        p.items.insert(p.items.begin() + k, Item{pw ? "power" : "crash", {gap(), r.pct(25) ? 0 : r.pct(60) ? r.range(1, 30) : r.range(1, 120)}});
        if(r.pct(25)){
            // aimed at one kind of file
            Item &it = p.items[(size_t)k];
            it.a[1] = r.range(1, 8);
            it.a.resize(4);
            it.a[2] = r.range(2, 4);
            it.a[3] = r.pct(50) ? 0 : r.range(1, 4);
        }
    }
    for(int i = 0; i < ndisk; i++) p.items.insert(p.items.begin() + at(), Item{"disk", {gap(), (int64_t)r.below(3), (int64_t)r.below(80), (int64_t)r.below(4), r.pct(75) ? 0 : r.range(2, 4)}});
    if(is("C14") || (any && r.pct(30))) for(int i = 0; i < 2; i++) if(r.pct(70)) p.items.insert(p.items.begin() + at(), Item{"stop", {gap()}});
    if(r.pct(15)) p.items.insert(p.items.begin() + at(), Item{"time", {gap(), r.range(-100000, 100000)}});
    if(r.pct(is("C04") || is("C11") || is("C07") || is("C06") || is("C03") ? 30 : 10)){
        p.knobs["age"] = r.range(970, 1004);
        for(int i = 0; i < 3; i++){
            long k = at();
            p.items.insert(p.items.begin() + k, Item{"age", {gap()}});
            // lose power around the compaction that follows
            if(disk && r.pct(50)) p.items.insert(p.items.begin() + k, Item{"disk", {0, (int64_t)r.below(3), (int64_t)r.below(4), (int64_t)r.below(4), 1}});
            if(crash && r.pct(60)) p.items.insert(p.items.begin() + k, Item{r.pct(70) ? "power" : "crash", {0, r.range(1, 3), 1, r.pct(50) ? 0 : r.range(1, 6)}});
        }
    }
    return p;
}

static void process_init(){
    gl_process_init();
    codec::install_rand();
    signal(SIGABRT, on_abort);
    const char *lv = getenv("SIM_LOG");
    if(lv) gl_log_open(stderr, atoi(lv)); else gl_log_open(nullptr, -1);
}

static void run_plan(const Plan &p){
    World *w = new World(p);   // never freed: abandoned processes live in it
    w->run();
    W = nullptr;
}

const Sim core::the_sim = {"citm", process_init, gen, run_plan};
