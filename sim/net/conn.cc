// One process that looks up names and connects (duv_connect), against a
// resolver and hosts of the simulator's.
#include "world.h"

namespace {
enum { OK, REFUSED, SILENT, UNREACH, NOROUTE, NSTAT };
struct Name { int gai = 0; std::vector<int> st; };
struct Find;
struct World {
    Plan plan; Rng rng{1};
    std::vector<Name> names;
    std::vector<std::unique_ptr<Find>> finds;
    simuv::Proc *p = nullptr; gloop *l = nullptr; bool closed = false; int rc = 0;
    size_t item = 0; bool finished = false;
    int in_find = 0, accepted = 0, ended = 0;
    std::vector<std::unique_ptr<simuv::Model>> models;
};
static World *W;
static S addr_of(int name, int k){ return strf("10.1.%d.%d", name, k + 1); }
struct Find : Sink {
    int i, name; gs *s = nullptr;
    bool canceled = false, told = false, up = false, over = false, eof = false;
    int tried = 0;                 // addresses connected to so far
    uint64_t cancel_at = 0;
    S msg; char buf[64]; S got;
    char *wb[1]; size_t wl[1];
    void found(const char *e) override;
    void read(void*, char *b, size_t n) override {
        if(n){ got.append(b, n); gs_read(s, this, buf, sizeof buf); }
        else eof = true;
    }
    void written(void*) override {}
    void shut() override {}
    void await(const char *e, void**, int, void**, int) override {
        over = true;
        if(e) CX->fail("T05", "f%d: the connection it was given fails: %s", i, e);
        else if(got != "+" + msg) CX->fail("T05", "f%d: the connection it was given leads to another place ('%s')", i, got.c_str());
        s = nullptr;
    }
};
void Find::found(const char *e){
    CX->ev("f%d found %s%s", i, e ? e : "ok", W->in_find ? " (at once)" : "");
    if(W->in_find) CX->fail("T05", "f%d: called back from within duv_connect()", i);
    if(told){ CX->fail("T05", "f%d: called back twice", i); return; }
    told = true;
    const Name &n = W->names[(size_t)name];
    size_t first = 0;
    while(first < n.st.size() && n.st[first] != OK) first++;
    if(e){
        s = nullptr;
        over = true;
        CX->count(S(e) == "CANCELED" ? "finds_canceled" : "finds_failed");
        if(S(e) == "CANCELED"){
            if(!canceled) CX->fail("T05", "f%d: canceled, and nobody canceled it", i);
        }else{
            if(canceled) CX->fail("T05", "f%d: it was canceled, and ends with %s", i, e);
            if(!n.gai && first < n.st.size()) CX->fail("T05", "f%d: fails with %s though %s answers", i, e, addr_of(name, (int)first).c_str());
            if(!n.gai && tried != (int)n.st.size()) CX->fail("T05", "f%d: gives up after %d of %zu addresses", i, tried, n.st.size());
            if(!n.gai && S(e) != "CONNERROR") CX->fail("T05", "f%d: fails with %s though the name has addresses", i, e);
        }
        return;
    }
    CX->count("finds_ok");
    if(canceled) CX->fail("T05", "f%d: connected, though it was canceled before", i);
    if(n.gai || first >= n.st.size()) { CX->fail("T05", "f%d: connected, though nothing answers", i); return; }
    up = true;
    // a cancel that comes late does nothing
    if(i % 3 == 0) gs_find_cancel(s);
    gs_start(s, 0, nullptr, "", "", 0);
    gs_await(s);
    msg = strf("find %d at %s\n", i, addr_of(name, (int)first).c_str());
    wb[0] = (char*)msg.data(); wl[0] = msg.size();
    gs_read(s, this, buf, sizeof buf);
    gs_write(s, this, wb, wl, 1);
    gs_shutdown(s);
}
// what listens there
struct Host : simuv::Model {
    simuv::End *e; S addr, got; bool over = false;
    void on_data(const S &d) override { got += d; }
    void on_end(int st) override {
        over = true; W->ended++;
        CX->ev("%s ends %d '%s'", addr.c_str(), st, got.c_str());
        if(!got.empty() && got.find(" at " + addr.substr(0, addr.find(':')) + "\n") == S::npos) CX->fail("T05", "%s hears '%s'", addr.c_str(), got.c_str());
        if(st == UV_EOF && !got.empty()) simuv::write(e, "+" + got);
        simuv::shutdown(e);
        simuv::close(e);
    }
};
static void quiet(){
    for(auto &f : W->finds){
        if(!f->told) CX->fail("T05", "f%d is never called back", f->i);
        else if(!f->over) CX->fail("T05", "f%d: the connection it was given never ends", f->i);
    }
    W->finished = true;
}
static void next_item();
static void item(const Item &it){
    World &w = *W;
    if(it.kind == "find"){
        if(w.finds.size() >= 12) return;
        int name = (int)(it.arg(1) % (int64_t)w.names.size());
        // (an attempt is told by its address)
        for(auto &f : w.finds) if(!f->told && f->name == name) return;
        w.finds.emplace_back(new Find);
        Find *f = w.finds.back().get();
        f->i = (int)w.finds.size() - 1; f->name = name;
        bool at_once = it.arg(2) % 6 == 0;
        simuv::post(w.p, 0, [f, at_once]{
            CX->ev("f%d name %d", f->i, f->name);
            W->in_find++;
            f->s = gs_find(W->l, strf("name%d.test", f->name).c_str(), "7777", f);
            if(at_once){ f->canceled = true; f->cancel_at = simuv::now; CX->ev("f%d cancel at once", f->i); gs_find_cancel(f->s); }
            W->in_find--;
        });
    }else if(it.kind == "cancel"){
        if(w.finds.empty()) return;
        Find *f = w.finds[(size_t)(it.arg(1) % (int64_t)w.finds.size())].get();
        simuv::post(w.p, 0, [f]{
            if(f->told || !f->s) return;
            if(!f->canceled){ f->canceled = true; f->cancel_at = simuv::now; CX->count("cancels"); CX->ev("f%d cancel", f->i); }
            W->in_find++; gs_find_cancel(f->s); W->in_find--;
            simuv::after(5 * SEC, [f]{ if(!f->told) CX->fail("T05", "f%d: 5 seconds after it was canceled, it was not called back", f->i); });
        });
    }else if(it.kind == "stall"){ simuv::stall(w.p, simuv::now + (uint64_t)(it.arg(1) % 1500) * MS); CX->count("fault_stall"); }
}
static void next_item(){
    World &w = *W;
    if(w.item >= w.plan.items.size()){ simuv::after(900 * SEC, quiet); return; }
    const Item &it = w.plan.items[w.item++];
    simuv::after((uint64_t)(it.arg(0) % 1000000) * (MS / 10), [&it]{ item(it); next_item(); });
}
} // namespace

Plan gen_conn(uint64_t seed, const S &){
    Plan p; Rng r(seed * 2654435761u + 23);
    p.seed = seed;
    p.knobs["mode"] = 1;
    int n = 1 + (int)(r.next() % 4);
    p.knobs["names"] = n;
    for(int i = 0; i < n; i++){
        int64_t v = 0; int k = (int)(r.next() % 8 == 0 ? 0 : 1 + r.next() % 4);
        for(int j = 0; j < k; j++){ int x = (int)(r.next() % 10); v = v * 10 + 1 + (x < 3 ? OK : x < 6 ? REFUSED : x < 8 ? SILENT : x == 8 ? UNREACH : NOROUTE); }
        p.knobs[strf("name%d", i)] = v;
        p.knobs[strf("gai%d", i)] = r.next() % 8 ? 0 : 1 + (int64_t)(r.next() % 3);
    }
    int items = 1 + (int)(r.next() % 14);
    for(int i = 0; i < items; i++){
        Item it;
        int x = (int)(r.next() % 10);
        it.kind = x < 5 || !i ? "find" : x < 9 ? "cancel" : "stall";
        static const int gaps[] = {0, 0, 3, 10, 30, 100, 1000, 20000, 900000};
        int g = gaps[r.next() % 9];
        it.a = {(int64_t)(g ? g / 2 + r.next() % g : 0), (int64_t)(r.next() % 1000), (int64_t)(r.next() % 100)};
        p.items.push_back(it);
    }
    return p;
}
void run_conn(const Plan &plan){
    World w;
    W = &w;
    w.plan = plan;
    int n = (int)std::max<int64_t>(1, std::min<int64_t>(8, plan.knob("names", 1)));
    for(int i = 0; i < n; i++){
        Name x;
        for(int64_t v = plan.knob(strf("name%d", i).c_str()); v; v /= 10) x.st.push_back((int)((v % 10 + 9) % 10) % NSTAT);
        static const int G[] = {0, UV_EAI_NONAME, UV_EAI_AGAIN, UV_EAI_FAIL};
        x.gai = G[plan.knob(strf("gai%d", i).c_str()) % 4];
        w.names.push_back(x);
        for(size_t k = 0; k < x.st.size(); k++) if(x.st[k] == OK){
            S a = addr_of(i, (int)k) + ":7777";
            simuv::listen_model(a, [a](simuv::End *e, const S &){
                auto h = new Host; h->e = e; h->addr = a;
                W->accepted++;
                W->models.emplace_back(h);
                CX->ev("%s accepts", a.c_str());
                return h;
            });
        }
    }
    simuv::resolve = [](const S &node, std::vector<S> &out){
        int i = atoi(node.c_str() + 4);
        const Name &x = W->names[(size_t)i];
        CX->ev("resolve %d", i);
        if(x.gai) return x.gai;
        for(size_t k = 0; k < x.st.size(); k++) out.push_back(addr_of(i, (int)k));
        return 0;
    };
    simuv::conn_status = [](simuv::Proc*, const S &to){
        int i = 0, k = 0;
        if(sscanf(to.c_str(), "10.1.%d.%d:7777", &i, &k) != 2 || i >= (int)W->names.size() || k > (int)W->names[(size_t)i].st.size()){ CX->fail("T05", "somebody connects to %s", to.c_str()); return 0; }
        CX->ev("connect %s", to.c_str());
        Find *f = nullptr;
        for(auto &x : W->finds) if(x->name == i && !x->told) f = x.get();
        if(!f){ CX->fail("T05", "%s is connected to and nobody is waiting for it", to.c_str()); return 0; }
        if(f->canceled) CX->fail("T05", "f%d: %s is connected to after it was canceled", f->i, to.c_str());
        if(k - 1 != f->tried) CX->fail("T05", "f%d: %s is address %d, and %d were tried before", f->i, to.c_str(), k - 1, f->tried);
        for(int j = 0; j < k - 1; j++) if(W->names[(size_t)i].st[(size_t)j] == OK) CX->fail("T05", "f%d: %s is connected to though %s answered", f->i, to.c_str(), addr_of(i, j).c_str());
        f->tried++;
        CX->count("attempts");
        CX->state(mix64((uint64_t)i * 100 + (uint64_t)k) ^ mix64(W->finds.size() * 77 + (uint64_t)W->accepted));
        static const int R[] = {0, UV_ECONNREFUSED, 1, UV_ENETUNREACH, UV_EHOSTUNREACH};
        int st = R[W->names[(size_t)i].st[(size_t)k - 1]];
        if(st) CX->count(st == 1 ? "fault_silent" : st == UV_ECONNREFUSED ? "fault_refused" : "fault_unreachable");
        return st;
    };
    w.p = simuv::spawn("a@10.0.0.1", []{
        W->l = gl_open(nullptr);
        W->rc = gl_run(W->l); W->closed = true;
    });
    simuv::after(10 * MS, next_item);
    uint64_t t0 = simuv::now, lim = t0 + 100000 * SEC, k = 0;
    while(!w.finished && !CX->violated && simuv::step(lim)) if(++k > 1000000) break;
    if(!CX->violated && !w.finished) CX->fail("*", "the run did not come to its end");
    if(!CX->violated){
        bool open = false;
        for(auto &f : w.finds) open |= !f->over;
        if(!open){
            simuv::post(w.p, 0, []{ gl_unkeep(W->l); });
            lim = simuv::now + 5 * SEC;
            while(!CX->violated && simuv::step(lim)) if(++k > 1000000) break;
            if(!w.closed) CX->fail("T05", "all has ended, yet something keeps the event loop running");
            else if(w.rc) CX->fail("T05", "all has ended, yet the event loop can't be closed: %d", w.rc);
            else end_checks("T05", w.p, "the process");
            if(w.ended != w.accepted) CX->fail("T05", "%d connections were accepted, and %d closed", w.accepted, w.ended);
        }
    }
    CX->count("sim_ms", (int64_t)((simuv::now - t0) / MS));
    CX->count("sim_events", (int64_t)k);
    if(CX->violated || w.finds.size()) CX->count("nontrivial");
    simuv::kill(w.p);
    W = nullptr;
}
