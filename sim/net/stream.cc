// Two processes and a few connections between them, each end a passthru stream
// with or without TLS on top, driven by a scripted user.
#include "world.h"

namespace {
struct World;
static World *W;
static unsigned char byte_at(int conn, int who, uint64_t off){
    uint64_t h = mix64((uint64_t)conn * 1000003 + (uint64_t)who * 7919 + (off >> 3) * 31 + 5);
    return (unsigned char)(h >> ((off & 7) * 8));
}
struct Rd { int i; char *buf; size_t n; };
struct Wr { int i; std::vector<char*> bufs; std::vector<size_t> lens; size_t total; };
struct Conn;
struct Side : Sink {
    Conn *c; int who; gs *s = nullptr; int kind = 0;
    bool up = false, dead = false, awaited = false, canceled = false, shut_asked = false, shut_done = false, eof = false, draining = false, accept_waiting = false;
    S err; bool ok = false;
    uint64_t sent = 0, got = 0; int nr = 0, nw = 0, in_api = 0, done_w = 0, depth = 0;
    std::deque<Rd*> reads; std::deque<Wr*> writes; std::deque<Item> armed; std::deque<Item> later;
    S pre; char prebuf[64];
    S name() const;
    void fail(const char *p, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void calm(const char *what);
    void connected(int st) override; void raw(size_t n) override; void read(void *id, char *b, size_t n) override;
    void written(void *id) override; void shut() override; void await(const char *e, void **r, int nr, void **w, int nw) override;
    void start();
    void act(const Item &it);
    void fire();
    void drain();
    ~Side(){ for(auto r : reads){ delete[] r->buf; delete r; } for(auto w : writes) drop(w); }
    static void drop(Wr *w){ for(auto b : w->bufs) delete[] b; delete w; }
};
struct Conn { int i; Side side[2]; int tls = 0, cert = 0, pre = 0; bool faulted = false, tampered = false; S verify; S addr; int flip = 0; int flip_side = 0; };
struct Acceptor : Sink { void accepted(int i) override; };
struct World {
    Plan plan; Rng rng{1};
    std::vector<std::unique_ptr<Conn>> conns;
    simuv::Proc *p[2] = {}; gloop *l[2] = {}; bool closed[2] = {}; int rc[2] = {};
    Acceptor acc;
    size_t item = 0; bool draining = false, finished = false;
    uint64_t moved = 0, moved_at_check = 0, budget = 1 << 20;
};
S Side::name() const { return strf("c%d%c", c->i, "ab"[who]); }
void Side::fail(const char *p, const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char b[600]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    CX->fail(p, "%s (%s): %s", name().c_str(), kind ? "tls" : "passthru", b);
}
// every callback passes here
void Side::calm(const char *what){
    if(in_api) fail("T02", "%s is called back from within a call to the stream", what);
    if(awaited) fail("T02", "%s is called back after the stream was awaited", what);
}
void Side::connected(int st){
    if(st){
        // the listener was there all along
        CX->ev("%s connect -> %d", name().c_str(), st);
        dead = true; s = nullptr;
        if(!c->faulted) fail("T03", "a connection to a listener fails with %d", st);
        return;
    }
    start();
}
void Acceptor::accepted(int i){
    Conn &c = *W->conns[(size_t)i];
    Side &b = c.side[1];
    b.s = gs_accept(W->l[1], i, &b);
    CX->ev("%s accepted", b.name().c_str());
    if(c.tls && c.pre){ gs_raw_read(b.s, b.prebuf, (size_t)c.pre); return; }
    b.start();
}
void Side::raw(size_t n){
    pre.assign(prebuf, n);
    if(!n){
        // the client is gone before it said anything
        if(!c->faulted && !c->side[0].canceled && c->side[0].ok) fail("T01", "the stream ends though the other side did not end it");
        up = canceled = eof = true; kind = 0;
        CX->ev("%s nothing to start with", name().c_str());
        gs_await(s); in_api++; gs_cancel(s); in_api--;
        return;
    }
    CX->count("starttls");
    start();
}
void Side::start(){
    bool client = who == 0;
    kind = 0;
    if(c->tls == 1 || (c->tls == 2 && client) || (c->tls == 3 && !client)) kind = client ? 1 : 2;
    const char *e = gs_start(s, kind, client ? ctxs.client : ctxs.server[c->cert], c->verify.c_str(), pre.data(), pre.size());
    if(e){ fail("T04", "a stream can't be wrapped: %s", e); return; }
    up = true;
    CX->ev("%s up kind=%d", name().c_str(), kind);
    gs_await(s);
    if(draining){ drain(); return; }
    auto l = later; later.clear();
    for(auto &i : l) act(i);
}
void Side::fire(){
    // what was waiting for a callback to run in
    if(depth > 3) return;
    depth++;
    int n = (int)(W->rng.next() % 3);
    while(n-- > 0 && !armed.empty() && !awaited){ Item it = armed.front(); armed.pop_front(); CX->count("in_callback"); act(it); }
    depth--;
}
void Side::act(const Item &it){
    if(awaited || dead) return;
    if(!up){ later.push_back(it); return; }
    if(it.kind == "read"){
        static const size_t sz[] = {1, 2, 7, 100, 1000, 4096, 5000, 16384, 20000, 60000};
        int n = 1 + (int)(it.arg(3) % 6);
        for(int k = 0; k < n; k++){
            size_t len = sz[(size_t)(it.arg(4) + k) % 10];
            Rd *r = new Rd{nr, new char[len], len};
            in_api++;
            bool ok = gs_read(s, r, r->buf, len);
            in_api--;
            if(ok){ nr++; reads.push_back(r); }
            else{
                delete[] r->buf; delete r;
                if(!(gs_flags(s) & (1 | 4 | 8))) fail("T02", "a read is refused though the stream is neither canceled nor at its end");
            }
            if(!ok) break;
        }
        if(!eof) CX->ev("%s reads +%d", name().c_str(), n);
    }else if(it.kind == "write"){
        static const size_t sz[] = {1, 3, 10, 200, 1500, 4095, 4096, 4097, 16384, 17000, 40000, 70000};
        int n = 1 + (int)(it.arg(3) % 14), small = it.arg(3) % 3;
        for(int k = 0; k < n; k++){
            int nb = it.arg(5) % 3 == 0 ? 1 : 1 + (int)((it.arg(5) / 3 + k) % 9);
            Wr *w = new Wr; w->i = nw; w->total = 0;
            uint64_t off = sent;
            for(int b = 0; b < nb; b++){
                size_t len = sz[(size_t)(it.arg(4) + k + b * 5) % (small ? 5 : 12)];
                if(off + len > W->budget) len = std::min<size_t>(len, 3);
                if(nb > 1 && (it.arg(4) + b) % 4 == 0) len = b == nb - 1 && !w->total ? 1 : 0;
                char *d = new char[len + 1];
                for(size_t i = 0; i < len; i++) d[i] = (char)byte_at(c->i, who, off + i);
                off += len; w->total += len;
                w->bufs.push_back(d); w->lens.push_back(len);
            }
            in_api++;
            // (what is sent may arrive before the call returns)
            uint64_t was = sent; sent = off;
            bool ok = gs_write(s, w, w->bufs.data(), w->lens.data(), nb);
            in_api--;
            if(ok){ nw++; writes.push_back(w); if(nb > 4) CX->count("writes_heap"); }
            else{
                sent = was; drop(w);
                if(!(gs_flags(s) & (1 | 2 | 8)) && w->total) fail("T02", "a write is refused though the stream is neither canceled nor shut down");
                break;
            }
        }
        CX->ev("%s writes to %llu", name().c_str(), (unsigned long long)sent);
        if(writes.size() > 8) CX->count("many_writes");
    }else if(it.kind == "shut"){
        if(gs_flags(s) & (1 | 2)) { in_api++; gs_shutdown(s); in_api--; return; }
        CX->ev("%s shutdown", name().c_str());
        shut_asked = true;
        in_api++; gs_shutdown(s); in_api--;
    }else if(it.kind == "cancel"){
        if(!canceled){ CX->ev("%s cancel", name().c_str()); CX->count("cancels"); }
        canceled = true; 
        in_api++; gs_cancel(s); in_api--;
        if(it.arg(3) % 3 == 0){ in_api++; gs_cancel(s); in_api--; }
    }
}
void Side::read(void *id, char *b, size_t n){
    calm("a read");
    Rd *r = (Rd*)id;
    if(reads.empty() || reads.front() != r){ fail("T02", "reads complete out of order (or twice)"); return; }
    reads.pop_front();
    if(n && (b != r->buf || n > r->n)){ fail("T01", "a read returns %zu bytes in a buffer of %zu, or another buffer", n, r->n); return; }
    Side &o = c->side[!who];
    if(n){
        if(eof) fail("T01", "data after the end of the stream");
        if(kind && !o.kind) fail("T04", "data is read through TLS, though the other side speaks none");
        else if(!kind && o.kind) { got += n; delete[] r->buf; delete r; fire(); if(draining) drain(); return; }
        if(kind == 1 && cert_err[c->cert]) fail("T04", "data is read from a server whose certificate is %s", cert_name[c->cert]);
        if(kind == 2 && cert_err[c->cert]) fail("T04", "a server gets data from a client that must not trust its certificate (%s)", cert_name[c->cert]);
        for(size_t i = 0; i < n; i++) if((unsigned char)b[i] != byte_at(c->i, !who, got + i)){
            fail("T01", "byte %llu of the stream is wrong", (unsigned long long)(got + i));
            return;
        }
        got += n;
        if(got > o.sent) fail("T01", "%llu bytes are read of %llu that were written", (unsigned long long)got, (unsigned long long)o.sent);
        CX->count("bytes", (int64_t)n);
        CX->ev("%s got %llu", name().c_str(), (unsigned long long)got);
    }else{
        if(!eof){
            eof = true;
            CX->ev("%s eof at %llu", name().c_str(), (unsigned long long)got);
            if(kind && o.kind){
                if(!o.shut_asked) fail("T04", "the end of a TLS stream is read though the other side did not end it");
                else if(got != o.sent) fail("T04", "the end of a TLS stream is read after %llu of %llu bytes", (unsigned long long)got, (unsigned long long)o.sent);
            }else if(kind) fail("T04", "the end of a TLS stream is read, though the other side speaks none");
            else if(!o.kind && !c->faulted && !o.canceled && (o.ok || !o.awaited)){
                if(!o.shut_asked) fail("T01", "the stream ends though the other side did not end it");
                else if(got != o.sent) fail("T01", "the stream ends after %llu of %llu bytes", (unsigned long long)got, (unsigned long long)o.sent);
            }
        }
    }
    memset(r->buf, 0xee, r->n);
    delete[] r->buf; delete r;
    fire();
    if(draining) drain();
}
void Side::written(void *id){
    calm("a write");
    Wr *w = (Wr*)id;
    if(writes.empty() || writes.front() != w){ fail("T02", "writes complete out of order (or twice)"); return; }
    if(shut_done) fail("T02", "a write completes after the shutdown did");
    if(kind == 1 && cert_err[c->cert]) fail("T04", "data is written to a server whose certificate is %s", cert_name[c->cert]);
    writes.pop_front(); done_w++;
    for(size_t i = 0; i < w->bufs.size(); i++) memset(w->bufs[i], 0xee, w->lens[i]);
    drop(w);
    CX->ev("%s wrote %d", name().c_str(), done_w);
    fire();
}
void Side::shut(){
    calm("the shutdown");
    if(shut_done) fail("T02", "the shutdown completes twice");
    if(!shut_asked) fail("T02", "a shutdown completes that nobody asked for");
    if(!writes.empty()) fail("T02", "the shutdown completes before %zu writes", writes.size());
    shut_done = true;
    CX->ev("%s shut", name().c_str());
    fire();
}
void Side::await(const char *e, void **r, int nr, void **w, int nw){
    calm("the await");
    awaited = true; ok = !e; err = e ? e : "";
    CX->ev("%s await %s reads=%d writes=%d", name().c_str(), e ? e : "ok", nr, nw);
    CX->count(e ? S(e) == "CANCELED" ? "ends_canceled" : "ends_error" : "ends_ok");
    std::set<void*> a(r, r + nr), b(w, w + nw);
    if((int)a.size() != nr || (int)b.size() != nw) fail("T02", "a request is given back twice");
    for(auto x : reads){ if(!a.erase(x)) fail("T02", "a read is neither completed nor given back"); delete[] x->buf; delete x; }
    for(auto x : writes){ if(!b.erase(x)) fail("T02", "a write is neither completed nor given back"); drop(x); }
    reads.clear(); writes.clear();
    if(!a.empty() || !b.empty()) fail("T02", "a request is given back that was completed before");
    if(ok && (nr || nw)) fail("T02", "a stream ends without error, with %d reads and %d writes unfinished", nr, nw);
    if(ok && !(eof && shut_done)) fail("T03", "a stream ends without error before both its end was read and its shutdown completed");
    if(ok && canceled) fail("T03", "a canceled stream ends without error");
    s = nullptr;
    Side &o = c->side[!who];
    if(err == "CANCELED" && !canceled) fail("T03", "a stream ends as canceled, and nobody canceled it");
    if(!ok && !canceled && !c->faulted && !o.canceled){
        bool refused = c->tls && (c->tls != 1 || cert_err[c->cert]);
        if(!refused) fail("T03", "a stream fails without any fault: %s", err.c_str());
        else if(c->tls == 1 && kind == 1 && err != cert_err[c->cert]) fail("T04", "a certificate that is %s is refused as %s", cert_name[c->cert], err.c_str());
    }
}
// reads to the end of the stream, and ends its own side
void Side::drain(){
    draining = true;
    if(!up || awaited || dead) return;
    if(!(gs_flags(s) & (1 | 2))){ Item i; i.kind = "shut"; i.a = {0, 0, 0}; act(i); }
    if(awaited || !s) return;
    if(!(gs_flags(s) & (1 | 4)) && reads.size() < 2){ Item i; i.kind = "read"; i.a = {0, 0, 0, 1, 4 + (int64_t)(W->rng.next() % 6)}; act(i); }
}
static void item(const Item &it){
    World &w = *W;
    Conn &c = *w.conns[(size_t)(it.arg(1) % (int64_t)w.conns.size())];
    int who = (int)(it.arg(2) % 2);
    Side *s = &c.side[who];
    const S &k = it.kind;
    if(k == "read" || k == "write" || k == "shut" || k == "cancel"){
        if(it.arg(6) % 4 == 1){ s->armed.push_back(it); return; }
        // (another action may follow within the same pass of the loop)
        simuv::post(w.p[who], 0, [s, it]{ s->act(it); });
        return;
    }
    if(k == "stall"){ simuv::stall(w.p[who], simuv::now + (uint64_t)(it.arg(3) % 2000) * MS); CX->count("fault_stall"); CX->ev("stall %d", who); return; }
    if(k == "cut"){
        bool fin = it.arg(3) % 3 == 0;
        bool was = c.faulted;
        c.faulted = true;
        if(simuv::cut(c.addr, fin)){ CX->count(fin ? "fault_truncated" : "fault_reset"); CX->ev("cut c%d fin=%d", c.i, fin); }
        else c.faulted = was;
        return;
    }
    if(k == "tamper"){ if(c.tls == 1){ c.flip = 1 + (int)(it.arg(3) % 20); c.flip_side = who; } return; }
}
static void quiet_check();
static void next_item(){
    World &w = *W;
    if(w.item >= w.plan.items.size()){
        CX->ev("draining");
        w.draining = true;
        for(auto &c : w.conns){
            c->flip = 0;
            for(int i = 0; i < 2; i++){
                Side *s = &c->side[i];
                simuv::post(w.p[i], 0, [s]{
                    // what is left to run in callbacks runs now
                    auto a = s->armed; s->armed.clear();
                    for(auto &x : a) s->act(x);
                    s->drain();
                });
            }
        }
        simuv::after(20 * SEC, quiet_check);
        return;
    }
    const Item &it = w.plan.items[w.item++];
    simuv::after((uint64_t)(it.arg(0) % 100000) * (MS / 10), [&it]{ item(it); next_item(); });
}
static void quiet_check(){
    World &w = *W;
    bool again = false;
    // (slow is not stuck)
    for(auto &c : w.conns) for(auto &s : c->side) again |= !(s.awaited || s.dead);
    again = again && w.moved != w.moved_at_check;
    w.moved_at_check = w.moved;
    if(again){ simuv::after(20 * SEC, quiet_check); return; }
    for(auto &c : w.conns){
        bool open = false;
        for(auto &s : c->side) open |= !(s.awaited || s.dead);
        // (a length that was changed on the way may leave both sides waiting)
        if(open && c->tampered){ c->tampered = false; simuv::cut(c->addr, false); again = true; }
        // (as may a peer that speaks something else)
        else if(open && c->tls > 1){ c->tls = -c->tls; c->faulted = true; simuv::cut(c->addr, false); again = true; }
    }
    if(again){ simuv::after(20 * SEC, quiet_check); return; }
    for(auto &c : w.conns) for(auto &s : c->side){
        // (nothing ever came for a raw read to start with)
        if(!s.awaited && !s.dead && s.up) s.fail("T03", "20 seconds after the last fault, a stream%s has not ended (%zu reads, %zu writes, eof %d, shutdown %d)", s.canceled ? " that was canceled" : "", s.reads.size(), s.writes.size(), s.eof, s.shut_done);
        else if(!s.awaited && !s.dead) { if(!c->faulted && !c->side[!s.who].canceled) s.fail("T03", "a connection is never accepted"); }
    }
    // both ended without a fault: all was told
    for(auto &c : w.conns) if(!c->faulted && c->side[0].ok && c->side[1].ok) for(auto &s : c->side)
        if(s.got != c->side[!s.who].sent) s.fail("T01", "%llu of %llu bytes arrived", (unsigned long long)s.got, (unsigned long long)c->side[!s.who].sent);
    w.finished = true;
}
} // namespace

Plan gen_stream(uint64_t seed, const S &prop){
    Plan p; Rng r(seed * 2654435761u + 17);
    p.seed = seed;
    p.knobs["mode"] = 0;
    int n = 1 + (int)(r.next() % 3);
    p.knobs["conns"] = n;
    static const int win[] = {0, 0, 1, 50, 1000, 5000, 20000, 65536};
    p.knobs["window"] = win[r.next() % 8];
    p.knobs["eagain"] = (int64_t)(r.next() % 2);
    p.knobs["chunk"] = (int64_t[]){65536, 65536, 1, 5, 100, 1400}[r.next() % 6];
    static const int lat[] = {0, 1, 5, 50, 300};
    p.knobs["lat"] = lat[r.next() % 5];
    for(int i = 0; i < n; i++){
        bool tls = prop == "T04" ? r.next() % 8 : r.next() % 2;
        int t = tls ? 1 : 0;
        if(tls && r.next() % 16 == 0) t = 2 + (int)(r.next() % 2);
        p.knobs[strf("tls%d", i)] = t;
        p.knobs[strf("cert%d", i)] = r.next() % (prop == "T04" ? 2 : 12) ? 0 : (int64_t)(r.next() % NCERT);
        p.knobs[strf("pre%d", i)] = r.next() % 4 ? 0 : 1 + (int64_t)(r.next() % 60);
    }
    bool faults = r.next() % 2, cancels = r.next() % 3 == 0;
    int items = 3 + (int)(r.next() % 40);
    if(p.knobs["window"] == 1 || p.knobs["chunk"] == 1) items = std::min(items, 8);
    for(int i = 0; i < items; i++){
        Item it;
        int x = (int)(r.next() % 100);
        it.kind = x < 38 ? "read" : x < 80 ? "write" : x < 88 ? "shut" : x < 91 ? "stall" : x < 94 ? "cancel" : x < 97 ? "cut" : "tamper";
        if(it.kind == "cancel" && !cancels) it.kind = "read";
        if((it.kind == "cut" || it.kind == "tamper") && !faults) it.kind = "write";
        static const int gaps[] = {0, 0, 0, 1, 5, 20, 100, 500, 3000};
        int g = gaps[r.next() % 9];
        it.a = {(int64_t)(g ? g / 2 + r.next() % g : 0), (int64_t)(r.next() % 8), (int64_t)(r.next() % 2), (int64_t)(r.next() % 100000), (int64_t)(r.next() % 100), (int64_t)(r.next() % 100), (int64_t)(r.next() % 8)};
        p.items.push_back(it);
    }
    return p;
}
void run_stream(const Plan &plan){
    World w;
    W = &w;
    w.plan = plan;
    w.rng.reseed(plan.seed ^ 0x5151);
    simuv::opts.window = (size_t)plan.knob("window");
    simuv::opts.eagain = plan.knob("eagain");
    simuv::opts.chunk = (size_t)std::max<int64_t>(1, plan.knob("chunk", 65536));
    simuv::opts.max_wire = (uint64_t)plan.knob("lat") * MS + 200000;
    int n = (int)std::max<int64_t>(1, plan.knob("conns", 1));
    if(n > 4) n = 4;
    for(int i = 0; i < n; i++){
        w.conns.emplace_back(new Conn);
        Conn &c = *w.conns.back();
        c.i = i; c.tls = (int)plan.knob(strf("tls%d", i).c_str()); c.cert = (int)plan.knob(strf("cert%d", i).c_str()) % NCERT; c.pre = (int)plan.knob(strf("pre%d", i).c_str());
        if(c.pre > 60) c.pre = 60;
        c.verify = "good.host.test"; c.addr = strf("10.0.0.2:%d", 9000 + i);
        if(c.tls != 1) c.pre = 0;
        for(int k = 0; k < 2; k++){ c.side[k].c = &c; c.side[k].who = k; }
    }
    w.budget = std::min<uint64_t>(1 << 20, 1000 * std::max<uint64_t>(1, std::min<uint64_t>(simuv::opts.chunk, simuv::opts.window ? simuv::opts.window : 1 << 20)));
    simuv::wire_data = [](const S &from, const S &to, S &d){
        if(!d.empty()) W->moved++;
        for(auto &c : W->conns) if(c->flip && !d.empty() && (c->flip_side ? from : to) == c->addr && --c->flip == 0){
            d[W->rng.next() % d.size()] ^= (char)(1 << W->rng.next() % 8);
            c->faulted = c->tampered = true;
            CX->count("fault_corrupted");
            CX->ev("tamper c%d", c->i);
        }
    };
    w.p[1] = simuv::spawn("b@10.0.0.2", []{
        W->l[1] = gl_open(&W->acc);
        for(auto &c : W->conns) if(gl_listen(W->l[1], c->i, "10.0.0.2", 9000 + c->i)) abort();
        W->rc[1] = gl_run(W->l[1]); W->closed[1] = true;
    });
    w.p[0] = simuv::spawn("a@10.0.0.1", []{
        W->l[0] = gl_open(nullptr);
        W->rc[0] = gl_run(W->l[0]); W->closed[0] = true;
    });
    for(auto &c : w.conns){
        Conn *cp = c.get();
        simuv::post(w.p[0], 10 * MS + w.rng.next() % (5 * MS), [cp]{ cp->side[0].s = gs_dial(W->l[0], "10.0.0.2", 9000 + cp->i, &cp->side[0]); });
    }
    simuv::after(10 * MS, next_item);
    uint64_t t0 = simuv::now, lim = t0 + 360000 * SEC, k = 0;
    auto go = [&](bool &until){
        while(!until && !CX->violated && simuv::step(lim)){
            if(++k > 5000000){ CX->fail("T03", "the streams never rest"); break; }
            if((k & 7) == 0){
                uint64_t h = 7;
                for(auto &c : w.conns) for(auto &s : c->side) h = mix64(h ^ (uint64_t)(s.up + 2 * s.awaited + 4 * s.canceled + 8 * s.shut_asked + 16 * s.shut_done + 32 * s.eof) ^ (uint64_t)std::min<size_t>(s.reads.size(), 9) << 8 ^ (uint64_t)std::min<size_t>(s.writes.size(), 12) << 16 ^ (uint64_t)s.kind << 24 ^ (uint64_t)c->faulted << 30);
                CX->state(h);
            }
        }
    };
    go(w.finished);
    if(!CX->violated && !w.finished) CX->fail("*", "the run did not come to its end");
    if(!CX->violated){
        bool none = false;
        for(int i = 0; i < 2; i++) if(!w.closed[i]) simuv::post(w.p[i], 0, [i]{ gl_unkeep(W->l[i]); });
        lim = simuv::now + 5 * SEC;
        bool open_raw = false;
        for(auto &c : w.conns) for(auto &s : c->side) open_raw |= !s.awaited && !s.dead;
        go(none);
        for(int i = 0; i < 2 && !open_raw; i++){
            if(!w.closed[i]) CX->fail("T03", "all streams have ended, yet something keeps the event loop running");
            else if(w.rc[i]) CX->fail("T03", "all streams have ended, yet the event loop can't be closed: %d", w.rc[i]);
            else end_checks("T03", w.p[i], i ? "the accepting process" : "the connecting process");
        }
        if(net_ssl && !open_raw) CX->fail("T03", "%ld TLS sessions are left behind", net_ssl);
    }
    CX->count("sim_ms", (int64_t)((simuv::now - t0) / MS));
    CX->count("sim_events", (int64_t)k);
    bool some = false;
    for(auto &c : w.conns) for(auto &s : c->side) some |= s.awaited && (s.got || s.done_w || s.canceled || c->faulted || cert_err[c->cert]);
    if(CX->violated || some) CX->count("nontrivial");
    for(auto p : w.p) simuv::kill(p);
    W = nullptr;
}
