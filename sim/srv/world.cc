// The ACME challenge servers: real kvpsend and dns processes (their main
// loops included) over a simulated libuv, network, clock and database.
#include "common/core.h"
#include "common/simuv.h"
#include "common/mem.h"
#include "common/vfs.h"
#include "common/mem.h"
#include "glue.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <deque>
#include <errno.h>
#include <uv.h>
using namespace core;
typedef std::string S;
static const uint64_t MS = 1000000, SEC = 1000000000;

static S hex(const S &s){ S o; for(unsigned char c : s) o += strf("%02x", c); return o; }

struct User {
    S uuid, sub, ch;               // ch empty: none
    int ver = 0;                   // counts changes
    uint64_t changed = 0;
    std::map<S, int> vers;         // challenge -> the version it came with
    bool ready = false;            // a subscriber was told so
    uint64_t ready_at = 0;
};
struct Query { S qname; int qtype; bool edns; int esize; S client; bool acme; int user; uint64_t t; bool answered = false; bool final_ = false; bool valid = true; };
struct Server {
    int i; S ip, dns, sync;
    simuv::Proc *p = nullptr;
    bool up = false, ready = false;
    uint64_t trouble = 0;          // last time anything was wrong with it
    std::map<std::pair<S, int>, Query> out;        // (client, id)
    std::map<S, std::map<int, int>> seen;          // client ip -> second%32 -> packets handed to it
    uint64_t started = 0;
    std::vector<std::pair<uint64_t, uint64_t>> late;   // FLUSH packets: sent, arriving
    std::map<S, std::map<uint64_t, int>> sent;     // client ip -> second -> answers
    std::vector<std::pair<S,int>> await;           // handed in this event
    std::map<int, std::pair<int, bool>> floor_;    // user -> newest version answered, and whether it was since gone
    uint64_t part_until = 0; int part_dir = 0;     // 1 towards it, 2 from it, 3 both
    uint64_t err_until = 0; int err_kind = 0;      // its sends fail
};
struct Kv {
    int i; S ip, sync, sock;
    simuv::Proc *p = nullptr;
    bool up = false, ready = false;
    uint64_t trouble = 0, started = 0;
    uint64_t err_until = 0; int err_kind = 0, err_dst = 0;
    int refuse_exit = 0;
};
struct Sub : simuv::Model {
    int user; S req, got; simuv::End *e = nullptr; Kv *k; uint64_t t0; int ver; S ch; bool expect_ok, health, bad, done = false, fin = false;
    std::vector<S> parts;
    int kgen;
    void on_connect(int st) override;
    void on_data(const S &d) override;
    void on_end(int st) override;
};
struct World {
    Plan plan; Rng rng{1}, net{2};
    std::vector<User> users; std::vector<Server> srv; std::vector<Kv> kv;
    std::vector<std::unique_ptr<Sub>> subs;
    simuv::Proc *twin = nullptr; Kv *twin_of = nullptr; int twin_gen = 0; bool twin_ready = false; uint64_t twin_end = 0; std::set<simuv::Proc*> db_failed;
    uint64_t loss_until = 0; int loss = 0, dup = 0; uint64_t lat = 20 * MS, maxd = 0;
    int db_fail = 0; size_t item = 0; bool draining = false, quiet = false;
    int qid = 1, probe_ip = 0; int ok_count = 0, final_answers = 0;
    int kgen = 0;
};
static World *W;
#define CX core::cx

// ------------------------------------------------------------- database
static void db_broke(){ CX->count("fault_db"); W->db_failed.insert(simuv::current()); }
struct Snap { std::vector<std::pair<S, S>> rows; size_t i = 0; int fail_at = -1; S a, b; };
extern "C" void *sim_db_snapshot(void){
    if(W->db_fail > 0 && --W->db_fail == 0){ db_broke(); return nullptr; }
    Snap *s = new Snap;
    for(auto &u : W->users) if(!u.ch.empty()) s->rows.push_back({u.sub, u.ch});
    std::sort(s->rows.begin(), s->rows.end());
    if(W->db_fail > 0 && W->rng.next() % 4 == 0){ s->fail_at = (int)(W->rng.next() % (s->rows.size() + 1)); W->db_fail = 0; }
    return s;
}
extern "C" int sim_db_next(void *v, const char **a, size_t *al, const char **b, size_t *bl){
    Snap *s = (Snap*)v;
    if(s->fail_at == (int)s->i){ db_broke(); return -1; }
    if(s->i >= s->rows.size()) return 0;
    s->a = s->rows[s->i].first; s->b = s->rows[s->i].second; s->i++;
    *a = s->a.data(); *al = s->a.size(); *b = s->b.data(); *bl = s->b.size();
    return 1;
}
extern "C" void sim_db_done(void *v){ delete (Snap*)v; }
extern "C" int sim_db_get(const char *u, size_t n, const char **a, size_t *al, const char **b, size_t *bl){
    if(W->db_fail > 0 && --W->db_fail == 0){ db_broke(); return -1; }
    S id(u, n);
    for(auto &x : W->users) if(x.uuid == id){
        *a = x.sub.data(); *al = x.sub.size();
        if(x.ch.empty()) return 1;
        *b = x.ch.data(); *bl = x.ch.size();
        return 3;
    }
    return 0;
}
extern "C" void sim_random(unsigned char *b, size_t n){ for(size_t i = 0; i < n; i++) b[i] = (unsigned char)W->rng.next(); }

// ------------------------------------------------------------- processes
static void start_kv(Kv *k);
static void start_srv(Server *d);
static void trouble(Kv *k){ k->trouble = std::max(k->trouble, simuv::now); }
static void trouble(Server *d){ d->trouble = std::max(d->trouble, simuv::now); }
extern "C" void sim_ready(const char *){
    auto p = simuv::current();
    if(p == W->twin){
        CX->ev("ready twin");
        CX->count("twin_ready");
        W->twin_ready = true;
        Kv *k = W->twin_of;
        if(k->up && k->ready) CX->fail("K07", "a second kvpsend took over the socket of a running one");
    }
    for(auto &k : W->kv) if(k.p == p && W->twin && W->twin_ready && W->twin_of == &k) CX->fail("K07", "a second kvpsend took over the socket of a running one");
    for(auto &k : W->kv) if(k.p == p){ k.ready = true; CX->ev("ready kv%d", k.i); }
    for(auto &d : W->srv) if(d.p == p){ d.ready = true; CX->ev("ready dns%d", d.i); }
}
static void gone(Kv *k){
    k->up = k->ready = false;
    trouble(k);
    for(auto &s : W->subs) if(s->k == k && !s->done) s->expect_ok = false;
}
static void start_kv(Kv *k){
    if(k->up) return;
    k->up = true; k->ready = false; trouble(k); k->started = simuv::now;
    int gen = ++W->kgen;
    CX->ev("start kv%d", k->i);
    CX->count("starts_kvpsend");
    k->p = simuv::spawn("kv@" + k->ip, [k, gen]{
        std::vector<S> peers; std::vector<const char*> pp;
        for(auto &d : W->srv) peers.push_back(d.sync);
        for(auto &s : peers) pp.push_back(s.c_str());
        int r = glue_kvpsend(k->sync.c_str(), pp.data(), (int)pp.size(), k->sock.c_str(), (k->sock + ".lock").c_str());
        CX->ev("exit kv%d %d", k->i, r);
        if(mem::live_count(simuv::current())) CX->fail("K06", "an ended kvpsend did not free: %s", mem::report(simuv::current()).c_str());
        CX->count("exits_kvpsend");
        if(k->ready && !W->db_failed.count(k->p)) CX->fail("K06", "kvpsend %d stopped by itself", k->i);
        if(!k->ready && !W->db_failed.count(k->p) && !W->twin && W->twin_end < k->started) CX->fail("K07", "kvpsend %d does not start although nothing else is running", k->i);
        simuv::after(0, [k, gen]{
            if(gen != W->kgen && !k->up) return;
            simuv::kill(k->p);
            gone(k);
            // the supervisor starts it again
            simuv::after(1 * SEC, [k]{ start_kv(k); });
        });
    });
}
// somebody starts a second kvpsend on the same socket
static void start_twin(Kv *k, uint64_t dur){
    if(W->twin) return;
    CX->ev("start a twin of kv%d", k->i);
    CX->count("fault_twin_start");
    bool was_ready = k->up && k->ready;
    if(!was_ready) k->trouble = std::max(k->trouble, simuv::now + dur);
    W->twin_ready = false;
    int gen = ++W->twin_gen;
    W->twin = simuv::spawn("twin@10.0.9.1", [k, gen]{
        std::vector<S> peers; std::vector<const char*> pp;
        for(auto &d : W->srv) peers.push_back(d.sync);
        for(auto &s : peers) pp.push_back(s.c_str());
        int r = glue_kvpsend("10.0.9.1:7000", pp.data(), (int)pp.size(), k->sock.c_str(), (k->sock + ".lock").c_str());
        CX->ev("exit twin %d", r);
        if(mem::live_count(simuv::current())) CX->fail("K06", "an ended kvpsend did not free: %s", mem::report(simuv::current()).c_str());
        CX->count(r ? "twin_refused" : "twin_ended");
        simuv::after(0, [gen]{ if(gen == W->twin_gen && W->twin){ simuv::kill(W->twin); W->twin = nullptr; W->twin_end = simuv::now; } });
    });
    W->twin_of = k;
    simuv::after(dur, [gen, k]{
        if(gen != W->twin_gen || !W->twin) return;
        CX->ev("kill the twin");
        simuv::kill(W->twin); W->twin = nullptr; W->twin_end = simuv::now;
        trouble(k);
    });
}
static void start_srv(Server *d){
    if(d->up) return;
    d->up = true; d->ready = false; trouble(d); d->sent.clear(); d->seen.clear(); d->started = simuv::now;
    d->seen.clear(); d->await.clear(); d->floor_.clear();
    CX->ev("start dns%d", d->i);
    CX->count("starts_dns");
    d->p = simuv::spawn("dns@" + d->ip, [d]{
        std::vector<S> peers; std::vector<const char*> pp;
        for(auto &k : W->kv) peers.push_back(k.sync);
        for(auto &s : peers) pp.push_back(s.c_str());
        int r = glue_dns(d->sync.c_str(), d->dns.c_str(), pp.data(), (int)pp.size(), 100003);
        CX->ev("exit dns%d %d", d->i, r);
        CX->count("exits_dns");
        // nothing the network does may end it
        CX->fail("K06", "the dns server %d stopped by itself", d->i);
        simuv::after(0, [d]{
            simuv::kill(d->p); d->up = d->ready = false; trouble(d);
            simuv::after(1 * SEC, [d]{ start_srv(d); });
        });
    });
}

// ------------------------------------------------------------- dns messages
static S wname(const std::vector<S> &labels){ S o; for(auto &l : labels){ o += (char)l.size(); o += l; } o += '\0'; return o; }
static S be16(int v){ return S{(char)(v >> 8), (char)v}; }
struct RR { S name; int type, cls; uint32_t ttl; S rdata; };
struct Msg { int id, flags, qd, an, ns, ar; S qname; int qtype, qcls; std::vector<RR> a, n, x; };
static bool rname(const S &m, size_t &o, S &out){
    size_t p = o; bool jumped = false; int hops = 0;
    while(true){
        if(p >= m.size()) return false;
        unsigned c = (unsigned char)m[p];
        if((c & 0xc0) == 0xc0){
            if(p + 1 >= m.size() || ++hops > 20) return false;
            size_t t = ((c & 0x3f) << 8) | (unsigned char)m[p+1];
            if(t >= p) return false;
            if(!jumped){ o = p + 2; jumped = true; }
            p = t;
            continue;
        }
        if(c > 63) return false;
        if(p + 1 + c > m.size()) return false;
        if(!c){ if(!jumped) o = p + 1; return out.size() <= 255; }
        for(size_t i = 0; i < c; i++) out += (char)tolower(m[p + 1 + i]);
        out += '.';
        p += 1 + c;
    }
}
static int g16(const S &m, size_t o){ return ((unsigned char)m[o] << 8) | (unsigned char)m[o+1]; }
static bool rrr(const S &m, size_t &o, RR &r){
    if(!rname(m, o, r.name) || o + 10 > m.size()) return false;
    r.type = g16(m, o); r.cls = g16(m, o + 2); r.ttl = (uint32_t)g16(m, o + 4) << 16 | g16(m, o + 6);
    size_t n = g16(m, o + 8); o += 10;
    if(o + n > m.size()) return false;
    r.rdata = m.substr(o, n); o += n;
    return true;
}
static bool parse(const S &m, Msg &r){
    if(m.size() < 12) return false;
    r.id = g16(m, 0); r.flags = g16(m, 2); r.qd = g16(m, 4); r.an = g16(m, 6); r.ns = g16(m, 8); r.ar = g16(m, 10);
    size_t o = 12;
    if(r.qd > 1) return false;
    if(r.qd){
        if(!rname(m, o, r.qname) || o + 4 > m.size()) return false;
        r.qtype = g16(m, o); r.qcls = g16(m, o + 2); o += 4;
    }
    for(int i = 0; i < r.an; i++){ RR x; if(!rrr(m, o, x)) return false; r.a.push_back(x); }
    for(int i = 0; i < r.ns; i++){ RR x; if(!rrr(m, o, x)) return false; r.n.push_back(x); }
    for(int i = 0; i < r.ar; i++){ RR x; if(!rrr(m, o, x)) return false; r.x.push_back(x); }
    return o == m.size();
}
static S ip_of(const S &a){ return a.substr(0, a.rfind(':')); }
static S flat(const std::vector<S> &l){ S o; for(auto &x : l){ for(char c : x) o += (char)tolower(c); o += '.'; } return o; }

// sends a query; returns its id
static void query(Server *d, const S &client, const std::vector<S> &labels, int qtype, int esize, int user, bool fin){
    int id = W->qid++ & 0xffff;
    S m = be16(id) + be16((W->rng.next() & 1) ? 0x0100 : 0) + be16(1) + be16(0) + be16(0) + be16(esize ? 1 : 0);
    m += wname(labels) + be16(qtype) + be16(1);
    if(esize) m += S(1, 0) + be16(41) + be16(esize) + S(4, 0) + be16(0);
    Query q;
    q.qname = flat(labels); q.qtype = qtype; q.edns = esize; q.esize = esize; q.client = client; q.user = user; q.acme = user >= 0; q.t = simuv::now; q.final_ = fin;
    q.valid = labels.size() >= 3 && q.qname.size() >= 22 && q.qname.substr(q.qname.size() - 22) == "user.splintermail.com.";
    d->out[{client, id}] = q;
    CX->count("dns_queries");
    simuv::udp_send_model(client, d->dns, m);
}
static std::vector<S> acme_name(const S &sub, bool mixed){
    S s = sub;
    if(mixed) for(auto &c : s) if(W->rng.next() & 1) c = (char)toupper(c);
    return {"_acme-challenge", s, "user", "splintermail", "com"};
}
static S probe_client(){ int n = W->probe_ip++ % 200; return strf("10.1.0.%d:%d", n + 1, 1024 + (W->probe_ip / 200) % 60000); }
static void probe(Server *d, int u, bool fin = false){
    query(d, probe_client(), acme_name(W->users[u].sub, !fin), 16, W->rng.next() % 4 == 0 ? 1232 : 0, u, fin);
}

// a sync from before its restart ended on the server after its restart
static bool stale(Server *d){
    for(auto &l : d->late) if(l.first < d->started && l.second >= d->started && l.second <= simuv::now) return true;
    return false;
}
#define FAILS(p, ...) (stale(d) ? CX->finding("stale-sync", p, __VA_ARGS__) : CX->fail(p, __VA_ARGS__))
static void judge(Server *d, Query &q, Msg &m){
    int rc = m.flags & 15;
    if(q.qtype != 16) return;
    User &u = W->users[q.user];
    if(rc == 2){
        CX->count("answers_unsure");
        if(q.final_) FAILS("K02", "long after all faults ended, server %d does not know whether %s has a challenge", d->i, u.sub.c_str());
        return;
    }
    if(rc != 0){ CX->fail("K05", "server %d answered a challenge query with rcode %d", d->i, rc); return; }
    auto &fl = d->floor_[q.user];
    bool one = W->kv.size() == 1;
    if(m.a.empty()){
        CX->count("answers_none");
        if(q.final_){
            W->final_answers++;
            if(!u.ch.empty()) FAILS("K02", "long after all faults ended, server %d denies the challenge of %s", d->i, u.sub.c_str());
        }
        if(u.ready && one && W->kgen > 1 && simuv::now < W->kv[0].started + 16 * SEC + W->maxd)
            CX->finding("ready-after-restart", "K01", "server %d denies the challenge of %s, %.3f s after it was reported ready by a sender restarted shortly before", d->i, u.sub.c_str(), (simuv::now - u.ready_at) / 1e9);
        else if(u.ready && one) FAILS("K01", "server %d denies the challenge of %s, %.3f s after it was reported ready", d->i, u.sub.c_str(), (simuv::now - u.ready_at) / 1e9);
        fl.second = true;
        return;
    }
    CX->count("answers_challenge");
    RR &r = m.a[0];
    if(m.a.size() != 1 || r.type != 16 || r.cls != 1 || r.name != q.qname || r.rdata.empty() || (size_t)(unsigned char)r.rdata[0] + 1 != r.rdata.size()){
        CX->fail("K05", "server %d sent a malformed challenge answer", d->i);
        return;
    }
    S v = r.rdata.substr(1);
    auto it = u.vers.find(v);
    if(it == u.vers.end()){ CX->fail("K03", "server %d answered a challenge that %s never had: %s", d->i, u.sub.c_str(), quote(v, 40).c_str()); return; }
    if(q.final_){
        W->final_answers++;
        if(v != u.ch) FAILS("K02", "long after all faults ended, server %d answers %s for %s", d->i, u.ch.empty() ? "a deleted challenge" : "an old challenge", u.sub.c_str());
    }
    // a server which knows that it is out of date still gives positive answers
    if(u.ready && one && v != u.ch && d->trouble + 40 * SEC < simuv::now && W->kv[0].trouble + 40 * SEC < simuv::now) FAILS("K01", "server %d answers an old challenge of %s, %.3f s after the new one was reported ready", d->i, u.sub.c_str(), (simuv::now - u.ready_at) / 1e9);
    if(one && (it->second < fl.first || (it->second == fl.first && fl.second)))
        FAILS("K03", "server %d answers a challenge of %s again that it had replaced or denied", d->i, u.sub.c_str());
    if(it->second > fl.first) fl = {it->second, false};
}
// a datagram leaves a dns server's dns port
static void on_answer(Server *d, const S &dst, const S &data){
    S cip = ip_of(dst);
    int n = ++d->sent[cip][simuv::now / SEC];
    if(n > 8) CX->fail("K05", "server %d sent %d answers to one address within a second", d->i, n);
    Msg m;
    if(!parse(data, m)){ CX->fail("K05", "server %d sent a malformed packet of %zu bytes", d->i, data.size()); return; }
    if(!(m.flags & 0x8000)){ CX->fail("K05", "server %d sent something that is not a response", d->i); return; }
    auto it = d->out.find({dst, m.id});
    if(it == d->out.end() || it->second.answered){
        // an answer to garbage: it only has to be well-formed and small
        if(it == d->out.end() && dst.compare(0, 5, "10.2.") == 0){ if(data.size() > 4096) CX->fail("K05", "a response of %zu bytes", data.size()); return; }
        if(it != d->out.end() && W->dup) return;
        CX->fail("K05", "server %d sent an answer nobody asked for", d->i);
        return;
    }
    Query &q = it->second;
    q.answered = true;
    for(size_t i = 0; i < d->await.size(); i++) if(d->await[i].first == dst && d->await[i].second == m.id){ d->await.erase(d->await.begin() + (long)i); break; }
    size_t cap = q.edns ? std::max(512, std::min(q.esize, 4096)) : 512;
    if(data.size() > cap) CX->fail("K05", "a response of %zu bytes, when %zu are allowed", data.size(), cap);
    if(m.qd != 1 || m.qname != q.qname || m.qtype != q.qtype || m.qcls != 1) CX->fail("K05", "server %d answered with another question", d->i);
    if(m.flags & 0x0200) CX->count("answers_truncated");
    CX->ev("answer dns%d %s rc=%d an=%zu %s", d->i, q.qname.c_str(), m.flags & 15, m.a.size(), m.a.empty() ? "" : quote(m.a[0].rdata, 20).c_str());
    if(q.user >= 0) judge(d, q, m);
    else if(!(m.flags & 0x0200)){
        int dots = (int)std::count(q.qname.begin(), q.qname.end(), '.');
        int rc = m.flags & 15;
        if(dots == 4 && (q.qtype == 1 || q.qtype == 28 || q.qtype == 257) && (rc || m.a.empty() || m.a[0].type != q.qtype || m.a[0].name != q.qname)) CX->fail("K05", "no %d record for %s", q.qtype, q.qname.c_str());
        if(dots == 3 && (q.qtype == 2 || q.qtype == 6) && (rc || m.a.empty() || m.a[0].type != q.qtype)) CX->fail("K05", "no %d record for the zone", q.qtype);
        if(dots > 5 && rc != 3 && q.qtype == 16) CX->fail("K05", "rcode %d for a name that does not exist", rc);
    }
}
static void after_step(){
    for(auto &d : W->srv){
        for(auto &a : d.await){
            if(!d.up || simuv::ended(d.p)) break;
            auto it = d.out.find(a);
            if(it == d.out.end() || it->second.answered) continue;
            S cip = ip_of(a.first);
            if(d.seen[cip][(int)(simuv::now / SEC % 32)] > 7) continue;
            CX->fail("K05", "server %d got a valid query (%s, type %d) and does not answer", d.i, it->second.qname.c_str(), it->second.qtype);
        }
        d.await.clear();
    }
}

// ------------------------------------------------------------- subscribers
void Sub::on_connect(int st){
    if(st){
        CX->ev("sub%p refused", nullptr);
        done = true;
        return;
    }
    t0 = simuv::now;
    uint64_t dt = 0;
    for(auto &p : parts){
        S q = p;
        simuv::after(dt, [this, q]{ if(!done) simuv::write(e, q); });
        dt += W->rng.next() % (20 * MS);
    }
}
void Sub::on_data(const S &d){
    got += d;
    if(health){
        if(got.size() > W->srv.size() + 1 || (got.size() == W->srv.size() + 1 && (got.back() != '\n' || got.find_first_not_of("yn") != W->srv.size())))
            CX->fail("K04", "a health check was answered with \"%s\"", quote(got).c_str());
        return;
    }
    if(got != "k" && got != "t"){ CX->fail("K04", "a subscriber was answered with \"%s\"", quote(got).c_str()); return; }
    double dt = (simuv::now - t0) / 1e9;
    CX->ev("sub user%d got %s after %.3f", user, got.c_str(), dt);
    if(got == "k"){
        CX->count("subscribers_ready");
        if(bad){ CX->fail("K04", "a subscriber that asked for something else than the current challenge was told it is ready"); return; }
        User &u = W->users[(size_t)user];
        if(u.ver == ver && u.ch == ch && !ch.empty()){
            if(!u.ready){ u.ready = true; u.ready_at = simuv::now; }
            W->ok_count++;
            // ask right away, and keep asking
            if(W->kv.size() == 1) for(auto &d : W->srv){
                int un = user; Server *dp = &d;
                for(uint64_t w : {0ull, 10ull, 300ull, 1000ull, 3000ull, 8000ull}) simuv::after(w * MS, [un, dp]{ probe(dp, un); });
            }
        }
    }else{
        CX->count("subscribers_timeout");
        if(dt < 59.9) CX->fail("K04", "a subscriber was told of a timeout after %.1f s", dt);
    }
}
void Sub::on_end(int st){
    if(done) return;
    done = true;
    simuv::close(e);
    if(health && st == UV_EOF && got.empty() && !bad && k->trouble + 75 * SEC < t0) CX->fail("K04", "a health check got no answer");
    if(fin && health && got.find('n') != S::npos) CX->fail("K02", "long after all faults ended, a health check says \"%s\"", quote(got).c_str());
    if(fin && !health && got != "k") CX->fail("K02", "long after all faults ended, a subscriber is not told that the servers are ready");
    CX->ev("sub user%d end %d \"%s\"", user, st, got.c_str());
}
// what: 0 current challenge, 1 another one, 2 unknown uuid, 3 malformed, 4 health check
static void subscribe(Kv *k, int user, int what, bool fin){
    User &u = W->users[(size_t)user];
    auto s = std::make_unique<Sub>();
    s->user = user; s->k = k; s->ver = u.ver; s->ch = u.ch; s->bad = what != 0 && what != 4; s->health = what == 4; s->fin = fin;
    s->t0 = simuv::now; s->kgen = W->kgen;
    S line;
    if(what == 4) line = "H\n";
    else if(what == 3){
        static const char *m[] = {"\n", "S\n", "S:\n", "S:zz:x\n", "H \n", "X:1234\n", "SS\n\n"};
        line = m[W->rng.next() % 7];
        if(W->rng.next() % 3 == 0) line = "S:" + hex(u.uuid) + "\n";
        if(W->rng.next() % 4 == 0) line = "S:" + S(64, 'g') + ":abc\n";
    }
    else line = "S:" + (what == 2 ? hex(S(32, 'q')) : hex(u.uuid)) + ":" + (what == 1 ? u.ch + "x" : u.ch) + "\n";
    if(what == 0 && u.ch.empty()) s->bad = true;
    if(what == 0 && u.ch.empty()) line = "S:" + hex(u.uuid) + ":nothing\n";
    s->expect_ok = what == 0 && !u.ch.empty();
    size_t o = 0;
    while(o < line.size()){
        size_t n = W->rng.next() % 3 ? line.size() - o : 1 + W->rng.next() % (line.size() - o);
        s->parts.push_back(line.substr(o, n)); o += n;
    }
    Sub *sp = s.get();
    W->subs.push_back(std::move(s));
    CX->count("subscribers");
    CX->ev("subscribe kv%d user%d what=%d ver=%d", k->i, user, what, u.ver);
    sp->e = simuv::connect(k->sock, sp, "api");
    // nobody is left without an answer
    simuv::after(75 * SEC, [sp]{
        if(sp->done || sp->got.size()) return;
        if(sp->k->trouble + 75 * SEC > simuv::now) return;
        CX->fail("K04", "a subscriber got no answer for 75 s");
    });
    // one healthy server is enough, after 15 s
    if(sp->expect_ok) simuv::after(18 * SEC, [sp]{
        if(sp->got == "k" || !sp->expect_ok) return;
        User &u = W->users[(size_t)sp->user];
        if(u.ver != sp->ver) return;
        uint64_t lim = simuv::now - 40 * SEC;
        if(sp->k->trouble > lim) return;
        bool healthy = false, all = true;
        for(auto &d : W->srv){ if(d.trouble < lim) healthy = true; else all = false; }
        if(healthy) CX->fail("K04", "the challenge of %s is not ready after 18 s, with %s within reach all the time", u.sub.c_str(), all ? "all servers" : "a server");
    });
    if(sp->expect_ok) simuv::after(3 * SEC, [sp]{
        if(sp->got == "k" || !sp->expect_ok) return;
        User &u = W->users[(size_t)sp->user];
        if(u.ver != sp->ver) return;
        uint64_t lim = simuv::now - 30 * SEC;
        if(sp->k->trouble > lim) return;
        for(auto &d : W->srv) if(d.trouble > lim) return;
        CX->fail("K04", "the challenge of %s is not ready after 3 s, with all servers within reach", u.sub.c_str());
    });
}

// ------------------------------------------------------------- the network
static Server *by_sync(const S &a){ for(auto &d : W->srv) if(d.sync == a) return &d; return nullptr; }
static Kv *kv_by_sync(const S &a){ for(auto &k : W->kv) if(k.sync == a) return &k; return nullptr; }
static simuv::Verdict on_net(const S &src, const S &dst, const S &data){
    simuv::Verdict v;
    for(auto &d : W->srv) if(src == d.dns) on_answer(&d, dst, data);
    Server *to = by_sync(dst), *from = by_sync(src);
    Rng &r = W->net;
    v.delay[0] = W->lat / 2 + r.next() % W->lat;
    if(!to && !from) return v;        // queries are not lost: the client would only ask again
    static bool wire = getenv("SIM_WIRE");
    if(wire && (kv_by_sync(src) || kv_by_sync(dst))){
        uint64_t x = 0; for(int i = 0; i < 8 && to; i++) x = x << 8 | (unsigned char)data[i];
        fprintf(stderr, "   %.4f %s->%s %s (expiry %.3f)\n", simuv::now / 1e9 - 1.7e9, src.c_str(), dst.c_str(), hex(data.substr(0, 60)).c_str(), x ? x / 1e9 - 1.7e9 : 0);
    }
    Server *d = to ? to : from;
    bool lost = false;
    if(d->part_until > simuv::now && (d->part_dir & (to ? 1 : 2))) lost = true;
    if(W->loss_until > simuv::now && (int)(r.next() % 100) < W->loss) lost = true;
    if(lost){ v.copies = 0; trouble(d); CX->count("fault_packet_lost"); return v; }
    if(W->quiet) return v;
    if(W->maxd && r.next() % 12 == 0){ v.delay[0] += r.next() % W->maxd; CX->count("fault_packet_late"); if(v.delay[0] > 200 * MS) trouble(d); }
    if(W->dup && (int)(r.next() % 100) < W->dup){
        v.copies = 2 + (r.next() % 4 == 0);
        for(int i = 1; i < v.copies; i++) v.delay[i] = v.delay[0] + r.next() % (W->maxd ? W->maxd : 500 * MS);
        CX->count("fault_packet_dup", v.copies - 1);
    }
    if(to && data.size() > 16 && data[16] == 1) for(int i = 0; i < v.copies; i++) d->late.push_back({simuv::now, simuv::now + v.delay[i]});
    return v;
}
static int on_send_status(simuv::Proc *p, const S &, const S &dst, const S &){
    for(auto &k : W->kv) if(k.p == p && k.err_until > simuv::now){
        Server *d = by_sync(dst);
        if(d && d->i == k.err_dst){ trouble(d); CX->count("fault_send_error"); return k.err_kind == 0 ? UV_EDESTADDRREQ : -ENOKEY; }
    }
    for(auto &d : W->srv) if(d.p == p && d.err_until > simuv::now && kv_by_sync(dst)){ trouble(&d); CX->count("fault_send_error"); return d.err_kind == 0 ? UV_EDESTADDRREQ : -ENOKEY; }
    return 0;
}
static void on_handed(simuv::Proc *p, const S &src, const S &dst, const S &data){
    for(auto &d : W->srv) if(d.p == p && dst == d.dns){
        d.seen[ip_of(src)][(int)(simuv::now / SEC % 32)]++;
        if(data.size() >= 2){
            auto it = d.out.find({src, g16(data, 0)});
            if(it != d.out.end() && it->second.valid && !it->second.answered) d.await.push_back(it->first);
        }
    }
}

// ------------------------------------------------------------- plans
static const char *KIND[] = {"set", "del", "sub", "health", "query", "burst", "junk", "part", "loss", "crashk", "crashd", "stall", "senderr", "dberr", "wait", "flip", "twin"};
static Plan gen(uint64_t seed, const std::string &prop){
    Rng r(seed * 2654435761u + h64("srv"));
    Plan p;
    p.seed = seed;
    p.knobs["nd"] = 1 + (int)(r.next() % 3);
    p.knobs["nk"] = r.next() % 6 == 0 && prop != "K01" ? 2 : 1;
    p.knobs["users"] = 1 + (int)(r.next() % 6);
    p.knobs["preset"] = (int)(r.next() % 64);
    static const int lats[] = {1, 5, 20, 60, 120};
    p.knobs["lat"] = lats[r.next() % 5];
    p.knobs["dup"] = r.next() % 3 ? 0 : 1 + (int)(r.next() % 30);
    static const int mx[] = {0, 0, 500, 3000, 20000, 60000};
    p.knobs["late"] = mx[r.next() % 6];
    int w[17] = {10, 4, 5, 2, 4, 1, 3, 5, 3, 2, 3, 2, 1, 1, 3, 4, 1};
    // some runs stress one thing
    int focus = (int)(r.next() % 8);
    if(focus < 5) for(int i = 0; i < 3; i++) w[5 + r.next() % 11] *= 4;
    if(prop == "K05"){ w[4] += 20; w[5] += 10; w[6] += 20; }
    if(prop == "K06"){ w[12] += 10; w[13] += 5; w[6] += 5; }
    if(prop == "K03"){ w[1] += 8; w[15] += 8; if(!p.knobs["dup"]) p.knobs["dup"] = 15; }
    if(prop == "K07"){ w[16] += 12; w[8] += 6; w[13] += 3; }
    if(prop == "K01"){ w[0] += 6; w[9] += 3; w[10] += 3; w[7] += 4; }
    if(focus == 7) for(int i = 7; i < 14; i++) w[i] = 0;
    int total = 0;
    for(int x : w) total += x;
    int n = 8 + (int)(r.next() % 40);
    static const int gaps[] = {0, 20, 200, 1000, 3000, 8000, 16000, 30000};
    for(int i = 0; i < n; i++){
        int x = (int)(r.next() % total), k = 0;
        while(x >= w[k]){ x -= w[k]; k++; }
        Item it;
        it.kind = KIND[k];
        int g = gaps[r.next() % 8];
        it.a = {(int64_t)(g ? g / 2 + r.next() % g : 0), (int64_t)(r.next() % 8), (int64_t)(r.next() % 8), (int64_t)(r.next() % 30000), (int64_t)(r.next() % 100)};
        p.items.push_back(it);
    }
    return p;
}
static void junk_packet(Server *d, int kind, int64_t x){
    Rng r((uint64_t)x * 977 + (uint64_t)kind);
    S m;
    int mode = kind % 4;
    if(mode == 0){ size_t n = r.next() % 600; for(size_t i = 0; i < n; i++) m += (char)r.next(); }
    else{
        std::vector<S> l = acme_name(W->users[(size_t)(x % (int64_t)W->users.size())].sub, true);
        if(mode == 2){ l.clear(); int n = (int)(r.next() % 40); for(int i = 0; i < n; i++) l.push_back(S(1 + r.next() % 63, 'a')); if(r.next() & 1){ l.push_back("user"); l.push_back("splintermail"); l.push_back("com"); } }
        m = be16((int)r.next() & 0xffff) + be16(0x100) + be16(1) + be16(0) + be16(0) + be16(mode == 3) + wname(l) + be16((int)(r.next() % 300)) + be16(1);
        if(mode == 3) m += S(1, 0) + be16(41) + be16((int)(r.next() & 0xffff)) + S(4, (char)(r.next() % 3)) + be16((int)(r.next() % 20)) + S(r.next() % 20, 'x');
        int flips = (int)(r.next() % 6);
        for(int i = 0; i < flips && !m.empty(); i++) m[r.next() % m.size()] = (char)r.next();
        if(r.next() % 4 == 0) m.resize(r.next() % (m.size() + 1));
    }
    CX->count("junk_packets");
    if(x % 3 == 2){
        // something that looks like an update, from a host that is no peer
        S u;
        for(int i = 0; i < 8; i++) u += (char)(r.next() % 3 ? 0x7f : 0);
        for(int i = 0; i < 8; i++) u += (char)r.next();
        u += (char)(r.next() % 5);
        size_t n = r.next() % 60;
        for(size_t i = 0; i < n; i++) u += (char)r.next();
        simuv::udp_send_model("10.9.9.9:7000", d->sync, u);
    }
    simuv::udp_send_model(strf("10.2.0.%d:%d", (int)(x % 50) + 1, 2000 + (int)(x % 100)), d->dns, m);
}
static void set_challenge(User &u, int64_t x){
    u.ver++;
    static const size_t lens[] = {43, 43, 1, 10, 255, 254, 100, 43};
    size_t n = lens[x % 8];
    S v = strf("%s.%d.", u.sub.c_str(), u.ver);
    if(n < v.size()) v = v.substr(0, std::max<size_t>(n, 1)) ;
    // distinct from all before
    while(u.vers.count(v) || v.size() < n) v += (char)('a' + W->rng.next() % 26);
    if(v.size() > 255) v.resize(255);
    u.ch = v; u.vers[v] = u.ver; u.ready = false; u.changed = simuv::now;
    CX->ev("db set %s ver=%d", u.sub.c_str(), u.ver);
    CX->count("challenges_set");
}
static void del_challenge(User &u){
    if(u.ch.empty()) return;
    u.ver++; u.ch.clear(); u.ready = false; u.changed = simuv::now;
    CX->ev("db delete %s ver=%d", u.sub.c_str(), u.ver);
    CX->count("challenges_deleted");
}
static void act(const Item &it){
    World &w = *W;
    User &u = w.users[(size_t)(it.arg(1) % (int64_t)w.users.size())];
    int un = (int)(&u - &w.users[0]);
    Server &d = w.srv[(size_t)(it.arg(2) % (int64_t)w.srv.size())];
    Kv &k = w.kv[(size_t)(it.arg(4) % (int64_t)w.kv.size())];
    uint64_t dur = (uint64_t)(it.arg(3) + 1) * MS;
    S c = it.kind;
    if(c == "set"){ set_challenge(u, it.arg(2)); subscribe(&k, un, 0, false); }
    else if(c == "flip"){
        // deleted (or replaced) while the last one is still on its way
        if(u.ch.empty()){ set_challenge(u, it.arg(2)); subscribe(&k, un, 0, false); }
        simuv::after((uint64_t)it.arg(3) % 3000 * MS, [un]{
            User &u = W->users[(size_t)un];
            del_challenge(u);
            subscribe(&W->kv[0], un, 1, false);
        });
    }
    else if(c == "del"){ del_challenge(u); if(it.arg(3) % 2) subscribe(&k, un, 0, false); }
    else if(c == "sub") subscribe(&k, un, (int)(it.arg(2) % 5), false);
    else if(c == "health") subscribe(&k, un, 4, false);
    else if(c == "query"){
        int kind = (int)(it.arg(3) % 6), qt[] = {16, 1, 28, 2, 6, 257, 15, 99};
        std::vector<S> l = acme_name(u.sub, true);
        int type = kind == 0 ? 16 : qt[it.arg(4) % 8];
        int esz[] = {0, 512, 1232, 4096, 65535, 0, 1, 0};
        int es = esz[(it.arg(4) / 8) % 8];
        int user = un;
        if(kind == 1){ l.erase(l.begin()); user = -1; }
        if(kind == 2){ l = {"user", "splintermail", "com"}; user = -1; }
        if(kind == 3){ l.insert(l.begin(), S(1 + it.arg(3) % 63, 'z')); user = -1; }
        if(kind == 4){ l[1] = S(1 + it.arg(3) % 63, 'q'); user = -1; }
        if(kind == 5){ l = {"example", "com"}; user = -1; }
        if(user >= 0 && type != 16) user = -1;
        query(&d, probe_client(), l, type, es, user, false);
    }
    else if(c == "burst"){
        // one client sends many
        int n = (int)(it.arg(4)) + 5;
        for(int i = 0; i < n; i++) simuv::after(i * (dur / 30 / (uint64_t)n + 1), [un, &d]{ query(&d, strf("10.3.0.%d:%d", d.i + 1, 3000 + W->qid % 1000), acme_name(W->users[(size_t)un].sub, false), 16, 0, un, false); });
        CX->count("fault_query_burst");
    }
    else if(c == "junk"){ for(int64_t i = 0; i < it.arg(1) + 1; i++) junk_packet(&d, (int)(it.arg(2) + i), it.arg(3) + i); }
    else if(c == "part"){ d.part_until = std::max(d.part_until, simuv::now + dur); d.part_dir = 1 + (int)(it.arg(4) % 3); trouble(&d); CX->count("fault_partition"); CX->ev("partition dns%d dir=%d for %lld", d.i, d.part_dir, (long long)it.arg(3)); }
    else if(c == "loss"){ w.loss_until = simuv::now + dur; w.loss = 5 + (int)(it.arg(4) % 70); CX->count("fault_loss"); CX->ev("loss %d for %lld", w.loss, (long long)it.arg(3)); }
    else if(c == "crashk"){
        if(k.up && k.p){ CX->ev("crash kv%d", k.i); CX->count("fault_crash"); simuv::kill(k.p); gone(&k);
            Kv *kp = &k; simuv::after(it.arg(2) < 5 ? (uint64_t)it.arg(2) * 300 * MS : dur, [kp]{ start_kv(kp); }); }
    }
    else if(c == "crashd"){
        if(d.up && d.p){ CX->ev("crash dns%d", d.i); CX->count("fault_crash"); simuv::kill(d.p); d.up = d.ready = false; trouble(&d);
            Server *dp = &d; simuv::after(it.arg(1) < 5 ? (uint64_t)it.arg(1) * 300 * MS : dur, [dp]{ start_srv(dp); }); }
    }
    else if(c == "stall"){
        uint64_t until = simuv::now + dur;
        CX->count("fault_stall");
        if(it.arg(4) % 2){ if(k.up){ simuv::stall(k.p, until); k.trouble = std::max(k.trouble, until); CX->ev("stall kv%d", k.i); for(auto &s : w.subs) if(!s->done && s->k == &k) s->expect_ok = false; } }
        else if(d.up){ simuv::stall(d.p, until); d.trouble = std::max(d.trouble, until); CX->ev("stall dns%d", d.i); }
    }
    else if(c == "senderr"){
        if(it.arg(4) % 2){ k.err_until = simuv::now + dur / 3; k.err_kind = (int)(it.arg(1) % 2); k.err_dst = d.i; }
        else{ d.err_until = simuv::now + dur / 3; d.err_kind = (int)(it.arg(1) % 2); }
        trouble(&d);
        CX->ev("sends fail");
    }
    else if(c == "twin") start_twin(&k, dur / 3 + 100 * MS);
    else if(c == "dberr"){ w.db_fail = 1 + (int)(it.arg(1) % 4); }
}
static void next_item(){
    World &w = *W;
    if(w.item >= w.plan.items.size()){
        // faults end; what was started is left to settle
        w.quiet = true; w.loss_until = 0; w.db_fail = 0;
        for(auto &d : w.srv){ d.part_until = 0; d.err_until = 0; }
        for(auto &k : w.kv) k.err_until = 0;
        uint64_t settle = 40 * SEC;
        for(auto &d : w.srv) settle = std::max(settle, d.trouble > simuv::now ? d.trouble - simuv::now + 40 * SEC : 0);
        for(auto &k : w.kv) settle = std::max(settle, k.trouble > simuv::now ? k.trouble - simuv::now + 40 * SEC : 0);
        settle = std::max(settle, (uint64_t)w.maxd + 40 * SEC) + 35 * SEC;
        CX->ev("faults end");
        simuv::after(settle, []{
            CX->ev("final");
            for(auto &d : W->srv) for(size_t u = 0; u < W->users.size(); u++) probe(&d, (int)u, true);
            for(auto &k : W->kv){
                subscribe(&k, 0, 4, true);
                for(size_t u = 0; u < W->users.size(); u++) if(!W->users[u].ch.empty()) subscribe(&k, (int)u, 0, true);
            }
            simuv::after(5 * SEC, []{
                for(auto &s : W->subs) if(s->fin && !s->done) CX->fail("K02", "long after all faults ended, a %s gets no answer", s->health ? "health check" : "subscriber");
                for(auto &d : W->srv) for(auto &q : d.out) if(q.second.final_ && !q.second.answered) CX->fail("K02", "long after all faults ended, server %d does not answer", d.i);
                W->draining = true;
            });
        });
        return;
    }
    const Item &it = w.plan.items[w.item++];
    simuv::after((uint64_t)it.arg(0) * MS, [&it]{ act(it); next_item(); });
}
static void prober(){
    if(W->draining) return;
    if(W->kv.size() == 1 || true){
        Server &d = W->srv[W->rng.next() % W->srv.size()];
        probe(&d, (int)(W->rng.next() % W->users.size()));
    }
    simuv::after((50 + W->rng.next() % 1200) * MS, prober);
}

static void run(const Plan &plan){
    World w;
    W = &w;
    w.plan = plan;
    w.rng.reseed(plan.seed ^ 0x5151);
    w.net.reseed(plan.seed ^ 0xa7a7);
    static Rng sched(1);
    sched.reseed(plan.seed ^ 0x1234);
    vfs::reset(plan.seed);
    vfs::mkdirs("/sim/run");
    simuv::reset(1700000000ull * SEC, &sched);
    simuv::udp_net = on_net;
    mem::start();
    simuv::udp_send_status = on_send_status;
    simuv::udp_handed = on_handed;
    w.lat = (uint64_t)std::max<int64_t>(1, plan.knob("lat", 20)) * MS;
    w.dup = (int)plan.knob("dup"); w.maxd = (uint64_t)plan.knob("late") * MS;
    int nd = (int)std::max<int64_t>(1, plan.knob("nd", 1)), nk = (int)std::max<int64_t>(1, plan.knob("nk", 1)), nu = (int)std::max<int64_t>(1, plan.knob("users", 1));
    for(int i = 0; i < nu; i++){
        User u;
        u.uuid = S(31, (char)('A' + i)) + (char)('0' + i);
        u.sub = strf("ab%c%dx", 'a' + (i * 7) % 26, i);
        w.users.push_back(u);
        if(plan.knob("preset") >> i & 1) set_challenge(w.users.back(), i);
    }
    for(int i = 0; i < nd; i++){
        Server d;
        d.i = i; d.ip = strf("10.0.1.%d", i + 1); d.dns = d.ip + ":53"; d.sync = d.ip + ":7001";
        w.srv.push_back(d);
    }
    for(int i = 0; i < nk; i++){
        Kv k;
        k.i = i; k.ip = strf("10.0.0.%d", i + 1); k.sync = k.ip + ":7000"; k.sock = strf("/sim/run/kv%d.sock", i);
        w.kv.push_back(k);
    }
    for(auto &d : w.srv) start_srv(&d);
    for(auto &k : w.kv) start_kv(&k);
    simuv::after(50 * MS, next_item);
    simuv::after(100 * MS, prober);
    uint64_t t0 = simuv::now, lim = simuv::now + 3600ull * SEC * 2;
    uint64_t n = 0;
    while(!w.draining && !CX->violated && simuv::step(lim)){
        after_step();
        if(++n > 3000000){ CX->fail("*", "the servers never rest"); break; }
        if((n & 15) == 0){
            uint64_t h = 1;
            for(auto &d : w.srv){ h = mix64(h ^ (uint64_t)(d.up * 2 + d.ready)); for(auto &f : d.floor_) h = mix64(h + (uint64_t)f.second.first * 8 + f.second.second + (uint64_t)f.first * 1000); h = mix64(h + (d.part_until > simuv::now)); }
            for(auto &k : w.kv) h = mix64(h ^ (uint64_t)(k.up * 2 + k.ready));
            for(auto &u : w.users) h = mix64(h + (uint64_t)u.ready * 3 + (uint64_t)u.ver * 16);
            size_t waiting = 0;
            for(auto &s : w.subs) waiting += !s->done;
            CX->state(h + waiting);
        }
    }
    if(!CX->violated && !w.draining) CX->fail("*", "the run did not come to its end");
    if(vfs::stats.bad_close) CX->count("bad_close", (int64_t)vfs::stats.bad_close);
    CX->count("sim_ms", (int64_t)((simuv::now - t0) / MS));
    CX->count("sim_events", (int64_t)n);
    if(CX->violated || (w.final_answers && w.ok_count)) CX->count("nontrivial");
    if(w.twin) simuv::kill(w.twin);
    for(auto &k : w.kv) if(k.p) simuv::kill(k.p);
    for(auto &d : w.srv) if(d.p) simuv::kill(d.p);
    mem::stop();
    simuv::reset(0, &sched);
    W = nullptr;
}
static void process_init(){ sim_log_init(); }
const Sim core::the_sim = {"srv", process_init, gen, run};
