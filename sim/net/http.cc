// One process with HTTP clients (duv_http) against servers of the simulator's,
// with and without TLS.
#include "world.h"
#include <openssl/ssl.h>

namespace {
enum Fault { NONE, TRUNC, RESET, MALFORMED, HANG, CLOSE_HDR, CLOSE_AFTER, EARLY, DRIP, NFAULT };
enum Framing { LENGTH, CHUNKED, TRAILERS, DELIM, EMPTY, NOCONTENT, NOTMOD, NFRAMING };
static const char *METHOD[] = {"GET", "HEAD", "POST", "PUT", "DELETE"};
static const int PORTS[] = {80, 443, 8080, 8443};     // odd ones with TLS
static const int NHOST = 3;
typedef std::vector<std::pair<S, S>> Hdrs;
struct Rd { char *buf; size_t n; };
struct Srv;
static unsigned char byte_at(int id, bool up, uint64_t off){ return (unsigned char)(mix64((uint64_t)id * 77003 + up * 31 + (off >> 3)) >> ((off & 7) * 8)); }
struct Req : Sink {
    int i = 0, h = 0, host = 0, port = 0, method = 0, framing = 0, fault = 0, style = 0, badurl = 0;
    bool tls = false, tlsport = false;
    S url, target; Hdrs up, params; S body;
    // what the server answers
    int status = 200; S reason; Hdrs down; size_t len = 0; bool good = true; S wire; size_t hdr_end = 0;
    // what has happened
    ghreq *q = nullptr; uint64_t at = 0, eof_at = 0;
    bool canceled = false, over = false, awaiting = false, ok = false, eof = false, excused = false, answered = false, no_slot = false;
    S err; std::deque<Rd*> reads; uint64_t got = 0; size_t nhdr = 0; bool pausing = false;
    int seen = 0, in_api = 0; Srv *conn = nullptr; int prev = -1; bool sent_all = false;
    ~Req(){ for(auto r : reads){ delete[] r->buf; delete r; } }
    bool hangs() const;
    void start(); void more(int n); void cancel(); void await_now();
    void fail(const char *p, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void hdr(const S &k, const S &v) override;
    void http_read(void *id, char *b, size_t n) override;
    void http_await(const char *e, void **r, int nr) override;
};
struct Client : Sink {
    int i = 0; gh *g = nullptr; bool closing = false, closed = false; uint64_t close_at = 0; int last = -1;
    void http_closed() override;
};
struct World { uint64_t stalled = 0;
    Plan plan; Rng rng{1};
    int cert[NHOST] = {}, down[NHOST] = {};
    std::vector<std::unique_ptr<Req>> reqs;
    std::vector<std::unique_ptr<Srv>> conns;
    std::deque<Client> cl;
    simuv::Proc *p = nullptr; gloop *l = nullptr; bool closed = false; int rc = 0;
    size_t item = 0; bool finished = false, draining = false;
};
static World *W;
bool Req::hangs() const { return fault == HANG || W->down[host] == 1 || tls != tlsport; }
void Req::fail(const char *p, const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char b[600]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    CX->fail(p, "request %d (%s %s): %s", i, METHOD[method], url.substr(0, 60).c_str(), b);
}
static S rnd_text(Rng &r, size_t n){ static const char a[] = "abcdefghijklmnopqrstuvwxyz0123456789-_.:/;=()"; S s; for(size_t i = 0; i < n; i++) s += a[r.next() % (sizeof a - 1)]; return s; }
static S enc(const S &s){
    S o;
    for(char c : s){
        if(isalnum((unsigned char)c) || strchr("*-._", c)) o += c;
        else if(c == ' ') o += '+';
        else o += strf("%%%02X", (unsigned char)c);
    }
    return o;
}
// the answer, and what the client shall make of it
static void compose(Req &q, Rng &r){
    static const char *reasons[] = {"OK", "Fine", "", "Not Found", "I am a teapot", "Internal Server Error"};
    static const int codes[] = {200, 200, 201, 404, 418, 500};
    int x = (int)(r.next() % 6);
    q.status = codes[x]; q.reason = reasons[x];
    bool head = q.method == 1;
    int fr = q.framing;
    if(fr == NOCONTENT) q.status = 204;
    if(fr == NOTMOD) q.status = 304;
    static const size_t lens[] = {1, 2, 10, 300, 4000, 4096, 5000, 9000, 30000};
    q.len = fr == EMPTY || fr == NOCONTENT || fr == NOTMOD ? 0 : lens[r.next() % 9];
    int bad = q.fault == MALFORMED ? (int)(r.next() % 10) : -1;
    if(bad >= 0 && head && (bad == 2 || bad == 3 || bad == 6)) bad = 0;
    if(bad == 2 || bad == 3 || bad == 6 || bad == 4){ fr = q.framing = bad == 6 ? TRAILERS : CHUNKED; if(q.len == 0) q.len = 10; if(q.status == 204 || q.status == 304) q.status = 200; }
    if(bad == 5 || bad == 9){ fr = q.framing = LENGTH; if(q.len == 0) q.len = 10; if(q.status == 204 || q.status == 304) q.status = 200; }
    S &w = q.wire;
    if(bad == 0) w = "HTTP/1.1 abc OK\r\n";
    else if(bad == 1) w = "\x01\x02 what is this\r\n";
    else w = strf("HTTP/1.1 %d %s\r\n", q.status, q.reason.c_str());
    int nh = (int)(r.next() % 6);
    auto add = [&](const S &k, const S &v){ q.down.push_back({k, v}); w += k + ": " + v + "\r\n"; };
    for(int k = 0; k < nh; k++) add(strf("X-H%d", k), rnd_text(r, 1 + r.next() % (r.next() % 8 ? 40 : 3000)));
    add("X-Id", std::to_string(q.i));
    if(q.fault == CLOSE_HDR || q.framing == DELIM) add("Connection", "close");
    if(bad == 7) w += "X-Long: " + S(9000, 'a') + "\r\n";
    if(bad == 8) w += "Transfer-Encoding: gzip\r\n";
    if(bad == 5){ w += "Content-Length: 3\r\nContent-Length: 4\r\n"; }
    if(bad == 9) w += "Content-Length: ten\r\n";
    S body;
    for(size_t k = 0; k < q.len; k++) body += (char)byte_at(q.i, false, k);
    if(fr == LENGTH || fr == EMPTY || fr == NOTMOD){ if(bad != 5 && bad != 9) add("Content-Length", std::to_string(fr == NOTMOD ? 1234 : q.len)); }
    if(fr == CHUNKED || fr == TRAILERS) add(r.next() % 2 ? "Transfer-Encoding" : "transfer-encoding", "chunked");
    if(bad == 4) w += "Content-Length: 10\r\n";
    w += "\r\n";
    q.hdr_end = w.size();
    if(head) { q.len = 0; }
    else if(fr == CHUNKED || fr == TRAILERS){
        size_t o = 0; bool hurt = false;
        while(o < body.size()){
            size_t n = 1 + r.next() % (r.next() % 2 ? 20 : 5000);
            n = std::min(n, body.size() - o);
            if(bad == 2 && !hurt){ w += "zz\r\n"; hurt = true; }
            else w += strf(r.next() % 2 ? "%zx%s\r\n" : "%zX%s\r\n", n, r.next() % 8 ? "" : ";ext=1");
            w += body.substr(o, n);
            if(bad == 3 && !hurt){ w += "XX"; hurt = true; }
            w += "\r\n";
            o += n;
        }
        w += "0\r\n";
        if(bad == 6) w += "Content-Length: 3\r\n";
        if(fr == TRAILERS && bad < 0) for(int k = 0, n = 1 + (int)(r.next() % 3); k < n; k++) add(strf("X-T%d", k), rnd_text(r, 1 + r.next() % 60));
        w += "\r\n";
    }else w += body;
    if(bad >= 0){ q.good = false; CX->count(strf("fault_malformed%d", bad).c_str()); }
}
// ------------------------------------------------------------- the servers
struct Srv : simuv::Model {
    simuv::End *e; int n, host, port; bool tls; SSL *ssl = nullptr; bool dead = false, ended = false, broke = false, was_reset = false, answering = false;
    uint64_t broke_at = 0; S in; int cur = -1, served = 0; bool hdrs_done = false; std::vector<int> ids;
    ~Srv() override { free_ssl(); }
    void free_ssl(){ if(ssl){ net_ssl++; SSL_free(ssl); ssl = nullptr; } }
    void on_data(const S &d) override;
    void on_end(int st) override;
    void parse(); void flush();
    void respond(Req &q);
    void piece(Req &q, size_t from, size_t to, bool last);
    void put(const S &d);
    void hang_up(bool notify, bool rst);
};
void Srv::flush(){
    char b[4096]; int n;
    while(!dead && (n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) simuv::write(e, S(b, (size_t)n));
}
void Srv::put(const S &d){
    if(dead || d.empty()) return;
    if(!tls){ simuv::write(e, d); return; }
    SSL_write(ssl, d.data(), (int)d.size());
    flush();
}
void Srv::hang_up(bool notify, bool rst){
    if(dead) return;
    if(tls && notify && !rst){ SSL_shutdown(ssl); flush(); }
    broke = true; broke_at = simuv::now; was_reset = rst;
    dead = true;
    // (what was not read by then makes the system reset the connection)
    if(cur >= 0) W->reqs[(size_t)cur]->excused = true;
    CX->ev("s%d hangs up%s", n, rst ? " (reset)" : "");
    if(!rst) simuv::shutdown(e);
    simuv::close(e, rst);
}
void Srv::on_data(const S &d){
    if(dead) return;
    if(!tls){ in += d; parse(); return; }
    BIO_write(SSL_get_rbio(ssl), d.data(), (int)d.size());
    char b[5000];
    for(;;){
        int k = SSL_read(ssl, b, sizeof b);
        if(k > 0){ in.append(b, (size_t)k); continue; }
        int er = SSL_get_error(ssl, k);
        flush();
        if(er == SSL_ERROR_WANT_READ) break;
        // (a handshake that failed, or the client's end)
        if(!dead){ if(er == SSL_ERROR_SSL){ CX->count("handshakes_refused"); } if(er == SSL_ERROR_SSL) { broke = true; broke_at = simuv::now; simuv::close(e, false); dead = true; ended = true; return; } }
        break;
    }
    parse();
}
void Srv::on_end(int st){
    CX->ev("s%d ends %d", n, st);
    ended = true;
    if(!dead){ dead = true; simuv::close(e); }
}
void Srv::parse(){
    while(!dead && !answering){
        size_t he = in.find("\r\n\r\n");
        if(he == S::npos) return;
        S head = in.substr(0, he);
        size_t l = head.find("\r\n");
        S line = head.substr(0, l);
        size_t a = line.find(" /r/");
        int id = a == S::npos ? -1 : atoi(line.c_str() + a + 4);
        if(id < 0 || id >= (int)W->reqs.size()){ CX->fail("H02", "a server gets '%s'", line.substr(0, 100).c_str()); return; }
        Req &q = *W->reqs[(size_t)id];
        Hdrs hs; size_t cl = 0; bool have_cl = false;
        while(l != S::npos && l + 2 <= head.size()){
            size_t b = l + 2, n2 = head.find("\r\n", b);
            S h = head.substr(b, n2 == S::npos ? S::npos : n2 - b);
            size_t c = h.find(": ");
            if(c == S::npos){ q.fail("H02", "the server gets the header line '%s'", h.substr(0, 80).c_str()); return; }
            hs.push_back({h.substr(0, c), h.substr(c + 2)});
            if(hs.back().first == "Content-Length"){ cl = (size_t)atoll(hs.back().second.c_str()); have_cl = true; }
            l = n2;
        }
        if(cur != id){
            cur = id; q.seen++;
            CX->ev("s%d gets request %d", n, id);
            if(q.seen > 1) q.fail("H02", "the server gets it a second time");
            if(q.over && !q.canceled && q.ok) q.fail("H02", "the server gets it after it ended");
            q.conn = this; ids.push_back(id);
            if(q.host != host || PORTS[q.port] != port || q.tls != tls) q.fail("H02", "it reaches another server (h%d:%d%s)", host, port, tls ? " by TLS" : "");
            if(tls && cert_err[W->cert[host]]) q.fail("H02", "it is sent to a server whose certificate is %s", cert_name[W->cert[host]]);
            if(q.badurl) q.fail("H02", "it is sent though its URL isn't valid");
            S want = strf("%s %s HTTP/1.1", METHOD[q.method], q.target.c_str());
            if(line != want){
                size_t k = 0; while(k < line.size() && k < want.size() && line[k] == want[k]) k++;
                q.fail("H02", "the server gets another request line, from byte %zu of %zu (%s / %s)", k, want.size(), line.substr(k, 30).c_str(), want.substr(k, 30).c_str());
            }
            Hdrs w2; w2.push_back({"Host", q.url.substr(q.url.find("//") + 2, q.url.find("/r/") - q.url.find("//") - 2)});
            bool payload = q.method == 2 || q.method == 3;
            if(payload) w2.push_back({"Content-Length", std::to_string(q.body.size())});
            if(q.method != 1){ w2.push_back({"TE", "trailers"}); w2.push_back({"Connection", "TE"}); }
            for(auto it = q.up.rbegin(); it != q.up.rend(); ++it) w2.push_back(*it);
            if(hs != w2){
                S g; for(auto &x : hs) g += x.first + "=" + x.second.substr(0, 12) + " ";
                q.fail("H02", "the server gets other headers: %s", g.c_str());
            }
            (void)have_cl;
            // (one request at a time)
            if(W->cl[(size_t)q.h].last >= 0 && q.prev >= 0 && !served){
                Req &pv = *W->reqs[(size_t)q.prev];
                bool same = pv.host == q.host && pv.port == q.port && pv.tls == q.tls;
                bool keep = pv.ok && !pv.canceled && pv.framing != DELIM && pv.fault != CLOSE_HDR && pv.conn && !pv.conn->broke && pv.eof;
                uint64_t from = std::max(q.at, W->stalled);   // (a stalled program may find its idle timer has run out)
                uint64_t gap = from > pv.eof_at ? from - pv.eof_at : 0;
                if(same && keep && gap < 2500 * MS && !q.no_slot && tls) CX->finding("tls-once", "H04", "request %d (%s) comes by a new TLS connection, %llu ms after the one before could have been used again", q.i, q.url.c_str(), (unsigned long long)(gap / MS));
                else if(same && keep && gap < 2500 * MS && !q.no_slot) q.fail("H04", "it comes by a new connection, %llu ms after the one before could have been used again", (unsigned long long)(gap / MS));
            }
            if(served) CX->count("reused");
        }
        if(q.fault == EARLY && !q.answered){ respond(q); if(dead) return; if(answering){ /* the body is read below */ } }
        if(in.size() < he + 4 + cl) return;
        S b = in.substr(he + 4, cl);
        if(b != q.body){
            size_t k = 0; while(k < b.size() && k < q.body.size() && b[k] == q.body[k]) k++;
            q.fail("H02", "the server gets another body, from byte %zu of %zu", k, q.body.size());
        }
        in.erase(0, he + 4 + cl);
        cur = -1; served++;
        if(!q.answered) respond(q);
    }
}
static void guarded(Srv *s, uint64_t dt, std::function<void()> fn){
    simuv::after(dt, [s, fn]{ if(!s->dead) fn(); });
}
void Srv::respond(Req &q){
    q.answered = true;
    Rng r(W->plan.seed * 31 + (uint64_t)q.i * 7 + 1);
    compose(q, r);
    Rng &g = W->rng;
    if(q.fault == HANG){ CX->count("fault_hang"); if(q.style % 2) return; size_t k = g.next() % q.wire.size(); put(q.wire.substr(0, k)); return; }
    uint64_t delay = g.next() % 3 ? g.next() % (2 * MS) : g.next() % (700 * MS);
    size_t stop = q.wire.size();
    if(q.fault == TRUNC || q.fault == RESET) stop = q.style % 4 == 0 ? q.wire.size() - 1 : g.next() % q.wire.size();
    Req *qp = &q;
    answering = true;
    guarded(this, delay, [this, qp, stop]{ piece(*qp, 0, stop, true); });
}
void Srv::piece(Req &q, size_t from, size_t stop, bool){
    Rng &g = W->rng;
    Req *qp = &q;
    if(from < stop){
        size_t n = stop - from;
        bool drip = q.fault == DRIP && stop < 3000;
        if(drip) n = 1 + g.next() % 20;
        else if(g.next() % 2) n = 1 + g.next() % n;
        else if(g.next() % 3 == 0) n = 1 + g.next() % 3;
        n = std::min(n, stop - from);
        put(q.wire.substr(from, n));
        if(dead) return;
        uint64_t d = from + n == stop ? 0 : drip ? g.next() % (30 * MS) : g.next() % 3 ? 0 : g.next() % (50 * MS);
        guarded(this, d, [this, qp, from, n, stop]{ piece(*qp, from + n, stop, true); });
        return;
    }
    answering = false;
    if(q.fault == TRUNC){ CX->count("fault_truncated"); hang_up(q.style % 3 == 0, false); return; }
    if(q.fault == RESET){ CX->count("fault_reset"); hang_up(false, true); return; }
    q.sent_all = true;
    if(q.framing == DELIM && q.method != 1){ hang_up(true, false); return; }
    if(q.fault == CLOSE_HDR || q.framing == DELIM){
        // the client was told; it may be the one to close
        if(q.style % 2) guarded(this, g.next() % (100 * MS), [this]{ hang_up(true, false); });
        return;
    }
    if(q.fault == CLOSE_AFTER){
        CX->count("fault_idle_close");
        uint64_t d = q.style % 3 == 0 ? 0 : g.next() % (4000 * MS);
        bool rst = q.style % 4 == 1;
        guarded(this, d, [this, rst]{ hang_up(W->rng.next() & 1, rst); });
        return;
    }
    parse();
}
// ------------------------------------------------------------- the client
void Req::start(){
    Client &c = W->cl[(size_t)h];
    at = simuv::now;
    prev = c.last; c.last = i;
    std::vector<const char*> hv, pv;
    for(auto &x : up){ hv.push_back(x.first.c_str()); hv.push_back(x.second.c_str()); }
    for(auto &x : params){ pv.push_back(x.first.c_str()); pv.push_back(x.second.c_str()); }
    hv.push_back(nullptr); pv.push_back(nullptr);
    CX->ev("request %d h%d %s %s%s", i, h, METHOD[method], url.substr(0, 40).c_str(), c.closing ? " (closed)" : "");
    if(c.closing) no_slot = true;
    in_api++;
    q = gh_req(c.g, method, url.c_str(), pv.data(), hv.data(), body.data(), body.size(), nullptr, this);
    in_api--;
    if(style % 3 == 0) await_now();
    else simuv::post(W->p, (uint64_t)(style % 7) * 700 * MS, [this]{ await_now(); });
    more(1 + style % 3);
}
void Req::await_now(){ if(!awaiting && q){ awaiting = true; in_api++; ghr_await(q); in_api--; } }
void Req::more(int n){
    static const size_t sz[] = {1, 3, 50, 1000, 4096, 20000};
    while(n-- > 0 && !over && !eof && q && reads.size() < 6){
        Rd *r = new Rd{nullptr, len < 100 && W->rng.next() % 2 ? sz[W->rng.next() % 3] : sz[2 + W->rng.next() % 4]};
        r->buf = new char[r->n];
        in_api++;
        bool okk = ghr_read(q, r, r->buf, r->n);
        in_api--;
        if(!okk){
            delete[] r->buf; delete r;
            if(!canceled && !over && !W->cl[(size_t)h].closing) fail("H03", "a read is refused");
            return;
        }
        reads.push_back(r);
    }
}
void Req::cancel(){
    if(over || !q) return;
    if(!canceled){ CX->ev("request %d cancel", i); CX->count("cancels"); }
    canceled = true;
    in_api++; ghr_cancel(q); in_api--;
    simuv::post(W->p, 0, [this]{ await_now(); });
    simuv::after(5 * SEC, [this]{ if(!over) fail("H03", "5 seconds after it was canceled, it has not ended"); });
}
void Req::hdr(const S &k, const S &v){
    if(in_api) fail("H03", "a header is told from within a call");
    if(over){ fail("H03", "a header is told after its end"); return; }
    if(!answered){ fail("H01", "a header is told though nothing was answered ('%s: %s')", k.substr(0, 40).c_str(), v.substr(0, 40).c_str()); return; }
    const char *rs; size_t rn;
    int st = ghr_status(q, &rs, &rn);
    if(good && (st != status || S(rs, rn) != reason)) fail("H01", "its status is told as %d '%s', not as %d '%s'", st, S(rs, rn).substr(0, 60).c_str(), status, reason.c_str());
    if(good && (nhdr >= down.size() || down[nhdr].first != k || down[nhdr].second != v)) fail("H01", "header %zu is told as '%s: %s'", nhdr, k.substr(0, 60).c_str(), v.substr(0, 60).c_str());
    nhdr++;
    if(style % 31 == 7 && nhdr == 2) cancel();
}
void Req::http_read(void *id, char *b, size_t n){
    if(in_api) fail("H03", "a read completes from within a call");
    Rd *r = (Rd*)id;
    if(over || reads.empty() || reads.front() != r){ fail("H03", "reads complete out of order (or twice, or after the end)"); return; }
    reads.pop_front();
    if(n && (b != r->buf || n > r->n)) fail("H01", "a read returns %zu bytes in a buffer of %zu", n, r->n);
    else if(n){
        if(eof) fail("H01", "data after the end of the body");
        if(!answered) fail("H01", "a body is read though nothing was answered");
        for(size_t k = 0; k < n; k++) if((unsigned char)b[k] != byte_at(i, false, got + k)){ if(good) fail("H01", "byte %llu of its body is wrong", (unsigned long long)(got + k)); break; }
        got += n;
        if(answered && got > len && good) fail("H01", "its body has %llu bytes of %zu", (unsigned long long)got, len);
        CX->count("body_bytes", (int64_t)n);
    }else if(!eof){
        eof = true; eof_at = simuv::now;
        CX->ev("request %d eof at %llu", i, (unsigned long long)got);
        // (how a body without a length ends, a plain connection can't tell)
        bool cut_delim = framing == DELIM && fault == TRUNC && !(tls && !(style % 3 == 0));
        if(framing == DELIM && !tls && conn && conn->broke && got < len) cut_delim = true;
        if(good && got != len && !(cut_delim && wire.size() && got < len)) fail("H01", "the end of its body is told after %llu of %zu bytes", (unsigned long long)got, len);
    }
    memset(r->buf, 0xee, r->n);
    delete[] r->buf; delete r;
    if(over || eof) { if(eof) await_now(); return; }
    if(W->draining || style % 5){ if(reads.empty() || W->rng.next() % 2) more(1); }
    else if(!pausing){
        pausing = true;
        simuv::post(W->p, W->rng.next() % (60 * MS), [this]{ pausing = false; more(1 + style % 3); });
    }
    if(style % 37 == 11 && got > len / 2) cancel();
}
void Req::http_await(const char *e, void **r, int nr){
    if(in_api) fail("H03", "it ends from within a call");
    if(over){ fail("H03", "it ends twice"); return; }
    over = true; ok = !e; err = e ? e : "";
    CX->ev("request %d %s reads=%d", i, e ? e : "ok", nr);
    const char *rs; size_t rn;
    (void)rs; (void)rn;
    std::set<void*> a(r, r + nr);
    for(auto x : reads){ if(!a.erase(x)) fail("H03", "a read is neither completed nor given back"); delete[] x->buf; delete x; }
    reads.clear();
    if(!a.empty()) fail("H03", "a read is given back that was completed before");
    q = nullptr;
    bool must_fail = badurl || no_slot || W->down[host] == 2 || (tls && (cert_err[W->cert[host]])) || tls != tlsport || !good;
    bool early_trunc = (fault == TRUNC || fault == RESET);
    CX->count(ok ? "ends_ok" : err == "CANCELED" ? "ends_canceled" : "ends_error");
    if(ok){
        if(!eof) fail("H01", "it ends without error before the end of its body was told");
        if(must_fail) fail("H01", "it ends without error, though there is nothing valid to tell");
        if(nhdr != down.size() && good) fail("H01", "it ends without error after %zu of %zu headers", nhdr, down.size());
        if(early_trunc && !(framing == DELIM && got <= len) && !(framing == DELIM || nhdr == down.size())) fail("H01", "it ends without error, though its answer was cut off");
        if(W->cl[(size_t)h].closing && W->cl[(size_t)h].close_at + 5 * SEC < simuv::now && !eof) fail("H03", "it ends without error after its client was closed");
        return;
    }
    if(err == "CANCELED"){
        if(!canceled && !W->cl[(size_t)h].closing) fail("H03", "it ends as canceled, and nobody canceled it");
        return;
    }
    // (a trailer that must not be there comes after all of the body)
    if(eof && got != len && !canceled && !W->cl[(size_t)h].closing) fail("H01", "it ends with %s after the end of its body was told", err.c_str());
    if(canceled || W->cl[(size_t)h].closing) return;
    if(tls && tls == tlsport && cert_err[W->cert[host]] && !W->down[host] && !badurl && !no_slot && !excused && err != cert_err[W->cert[host]]) fail("H01", "a certificate that is %s is refused as %s", cert_name[W->cert[host]], err.c_str());
    if(must_fail || early_trunc || excused) return;
    if(fault == HANG && W->down[host] == 0) { /* partial answers stay open */ }
    // a connection that was closed under it
    for(auto &s : W->conns) if(s->host == host && s->port == PORTS[port] && s->broke && s->broke_at + 60 * SEC > at && !(s.get() == conn && sent_all && framing == DELIM)){
        bool mine = s.get() == conn;
        // (its own answer was complete before)
        if(mine && sent_all && s->broke_at > 0 && fault != CLOSE_AFTER && !s->was_reset) continue;   // (a reset may drop what was sent before it)
        CX->count("lost_to_idle_close");
        return;
    }
    if(fault == CLOSE_AFTER && style % 4 == 1) return;      // (a reset may drop what was sent before it)
    if(W->down[host] == 1) { if(err == "CONNERROR") return; }
    fail("H01", "it fails with %s, though its answer was valid", err.c_str());
}
void Client::http_closed(){
    CX->ev("client %d closed", i);
    if(closed) CX->fail("H03", "client %d: closed twice", i);
    if(!closing) CX->fail("H03", "client %d: closed, though nobody asked for it", i);
    closed = true;
    g = nullptr;
}
static void close_client(Client &c){
    if(c.closing) return;
    c.closing = true; c.close_at = simuv::now;
    CX->ev("client %d close", c.i);
    CX->count("client_closes");
    if(!gh_close(c.g)) CX->fail("H03", "client %d: nothing to close", c.i);
    Client *cp = &c;
    // (its requests end on their own, and are awaited)
    for(auto &q : W->reqs) if(q->h == c.i && !q->over){ Req *r = q.get(); simuv::post(W->p, 0, [r]{ r->await_now(); }); }
    simuv::after(5 * SEC, [cp]{
        if(!cp->closed) CX->fail("H03", "client %d: 5 seconds after it was to close, it has not", cp->i);
        for(auto &q : W->reqs) if(q->h == cp->i && q->at < cp->close_at && q->at && !q->over) q->fail("H03", "5 seconds after its client was closed, it has not ended");
    });
}
// ------------------------------------------------------------- items
static void next_item();
static void drain();
static void new_req(const Item &it){
    World &w = *W;
    if(w.reqs.size() >= 40) return;
    Rng r(w.plan.seed * 131 + w.reqs.size() * 17 + (uint64_t)it.arg(7));
    auto q = new Req;
    w.reqs.emplace_back(q);
    q->i = (int)w.reqs.size() - 1;
    q->h = (int)(it.arg(1) % (int64_t)w.cl.size());
    q->host = (int)(it.arg(2) % NHOST);
    q->port = (int)(it.arg(3) % 4);
    q->tlsport = q->port & 1;
    q->tls = q->tlsport;
    if(it.arg(3) / 4 % 12 == 0 && q->port >= 2) q->tls = !q->tls;      // the wrong scheme
    q->method = (int)(it.arg(4) % 5);
    q->framing = (int)(it.arg(5) % NFRAMING);
    q->fault = (int)(it.arg(6) % NFAULT);
    q->style = (int)(it.arg(7) % 100000);
    if(q->style % 53 == 17) q->badurl = 1;
    int port = PORTS[q->port];
    S hp = strf("h%d.test", q->host);
    if(port >= 1000 || r.next() % 4 == 0) hp += strf(":%d", port);
    if(q->badurl == 1) q->url = "ftp://" + hp;
    else q->url = (q->tls ? "https://" : "http://") + hp;
    q->target = strf("/r/%d/", q->i) + rnd_text(r, 0);
    if(r.next() % 2) q->target += strf("p%d", (int)(r.next() % 1000));
    bool query = r.next() % 4 == 0;
    if(query) q->target += "?a=1&b=2";
    q->url += q->target;
    int np = r.next() % 3 ? 0 : 1 + (int)(r.next() % 4);
    for(int k = 0; k < np; k++){
        S v; size_t n = r.next() % 6 == 0 ? 1000 + r.next() % 5000 : r.next() % 40;
        for(size_t j = 0; j < n; j++) v += (char)(1 + r.next() % 255);
        q->params.push_back({strf("k%d&", k), v});
    }
    S t; bool amp = query;
    for(auto x = q->params.rbegin(); x != q->params.rend(); ++x){ t += (amp ? "&" : "?") + enc(x->first) + "=" + enc(x->second); amp = true; }
    if(!query && !t.empty()) t[0] = '?';
    q->target += t;
    int nh = (int)(r.next() % 4);
    for(int k = 0; k < nh; k++) q->up.push_back({strf("X-U%d", k), rnd_text(r, 1 + r.next() % (r.next() % 4 ? 50 : 6000))});
    if(q->method == 2 || q->method == 3){
        static const size_t bl[] = {0, 1, 100, 4000, 9000, 20000};
        size_t n = bl[r.next() % 6];
        for(size_t k = 0; k < n; k++) q->body += (char)byte_at(q->i, true, k);
    }
    q->q = nullptr;
    simuv::post(w.p, 0, [q]{ if(!W->cl[(size_t)q->h].closed) q->start(); else { q->over = true; q->no_slot = true; } });
}
static void item(const Item &it){
    World &w = *W;
    const S &k = it.kind;
    if(k == "req"){ new_req(it); return; }
    if(k == "rcancel"){
        std::vector<Req*> live;
        for(auto &q : w.reqs) if(!q->over) live.push_back(q.get());
        if(live.empty()) return;
        Req *q = live[(size_t)it.arg(1) % live.size()];
        simuv::post(w.p, 0, [q]{ q->cancel(); });
    }else if(k == "hclose"){
        Client *c = &w.cl[(size_t)(it.arg(1) % (int64_t)w.cl.size())];
        simuv::post(w.p, 0, [c]{ close_client(*c); });
    }else if(k == "stall"){ w.stalled = simuv::now + (uint64_t)(it.arg(1) % 1500) * MS; simuv::stall(w.p, w.stalled); CX->count("fault_stall"); }
    else if(k == "cut"){
        int host = (int)(it.arg(1) % NHOST); bool fin = it.arg(2) % 3 == 0;
        for(int p : PORTS){
            S a = strf("10.2.%d.1:%d", host, p);
            for(auto &s : w.conns) if(s->host == host && s->port == p && !s->dead){ s->broke = true; s->broke_at = simuv::now; for(int id : s->ids) w.reqs[(size_t)id]->excused = true; }
            for(auto &q : w.reqs) if(q->host == host && !q->over) q->excused = true;
            if(simuv::cut(a, fin)) CX->count(fin ? "fault_cut_fin" : "fault_cut");
        }
    }
}
static void next_item(){
    World &w = *W;
    if(w.item >= w.plan.items.size()){ w.draining = true; CX->ev("draining"); simuv::after(5 * SEC, drain); return; }
    const Item &it = w.plan.items[w.item++];
    simuv::after((uint64_t)(it.arg(0) % 1000000) * (MS / 10), [&it]{ item(it); next_item(); });
}
static int drained, last_alive = -1, stuck;
static uint64_t moved, moved_before;
static void drain(){
    World &w = *W;
    bool any = false;
    int alive = 0;
    for(auto &c : w.cl){
        Req *first = nullptr;
        for(auto &q : w.reqs) if(q->h == c.i && !q->over){ alive++; if(!first) first = q.get(); }
        if(!first) continue;
        any = true;
        int h = c.i;
        simuv::post(w.p, 0, [h]{
            // (what waits in vain would keep the others waiting)
            for(size_t k = 0; k < W->reqs.size(); k++){
                Req *q = W->reqs[k].get();
                if(q->h != h || q->over) continue;
                q->await_now();
                if(!q->over && q->reads.empty()) q->more(1);
                if(!q->over && q->hangs()) q->cancel();
            }
        });
    }
    if(any){
        stuck = alive == last_alive && moved == moved_before ? stuck + 1 : 0; last_alive = alive; moved_before = moved;
        if(stuck > 5){
            for(auto &q : w.reqs) if(!q->over){ q->fail("H03", "it does not end (%zu reads wait, %llu bytes of %zu, eof %d, server has it %d, answered %d)", q->reads.size(), (unsigned long long)q->got, q->len, q->eof, q->seen, q->sent_all); break; }
            w.finished = true;
            return;
        }
        simuv::after(8 * SEC, drain);
        return;
    }
    if(drained == 0){
        drained = 1;
        // idle connections go by themselves
        simuv::after(8 * SEC, drain);
        return;
    }
    if(drained == 1){
        drained = 2;
        for(auto &s : w.conns) if(!s->ended && !s->dead) CX->fail("H04", "8 seconds after its last request, a connection is still open (h%d:%d)", s->host, s->port);
        simuv::post(w.p, 0, []{ for(auto &c : W->cl) close_client(c); });
        simuv::after(8 * SEC, drain);
        return;
    }
    w.finished = true;
}
} // namespace

Plan gen_http(uint64_t seed, const S &prop){
    Plan p; Rng r(seed * 2654435761u + 29);
    p.seed = seed;
    p.knobs["mode"] = 2;
    p.knobs["clients"] = 1 + (int)(r.next() % 4 == 0);
    static const int win[] = {0, 0, 50, 1000, 5000, 20000, 65536};
    p.knobs["window"] = win[r.next() % 7];
    p.knobs["eagain"] = (int64_t)(r.next() % 2);
    p.knobs["chunk"] = (int64_t[]){65536, 65536, 65536, 5, 100, 1400}[r.next() % 6];
    static const int lat[] = {0, 1, 5, 50, 200};
    p.knobs["lat"] = lat[r.next() % 5];
    for(int i = 0; i < NHOST; i++){
        p.knobs[strf("cert%d", i)] = r.next() % 10 ? 0 : (int64_t)(r.next() % NCERT);
        p.knobs[strf("down%d", i)] = r.next() % 14 ? 0 : 1 + (int64_t)(r.next() % 2);
    }
    bool faults = r.next() % 3, cancels = prop == "H03" ? r.next() % 4 : r.next() % 4 == 0, mixed = r.next() % 2;
    int items = 1 + (int)(r.next() % 25);
    int host = (int)(r.next() % NHOST), port = (int)(r.next() % 4);
    for(int i = 0; i < items; i++){
        Item it;
        int x = (int)(r.next() % 100);
        it.kind = x < 82 || !i ? "req" : x < 90 ? (cancels ? "rcancel" : "req") : x < 92 ? (cancels ? "hclose" : "req") : x < 96 ? "stall" : faults ? "cut" : "req";
        static const int gaps[] = {0, 0, 0, 5, 100, 1000, 5000, 20000, 29000, 31000, 60000};
        int g = gaps[r.next() % 11];
        if(it.kind == "rcancel") g = gaps[r.next() % 6];
        bool f = faults && r.next() % 3 == 0;
        if(mixed && r.next() % 3 == 0){ host = (int)(r.next() % NHOST); port = (int)(r.next() % 4); }
        it.a = {(int64_t)(g ? g / 2 + r.next() % g : 0),
            it.kind == "req" ? (int64_t)(r.next() % 4) : (int64_t)(r.next() % 1000), (int64_t)host, (int64_t)(port + 4 * (int64_t)(r.next() % 100)),
            (int64_t)(r.next() % 5), (int64_t)(r.next() % NFRAMING), f ? 1 + (int64_t)(r.next() % (NFAULT - 1)) : 0, (int64_t)(r.next() % 100000)};
        if(it.kind != "req") it.a[2] = (int64_t)(r.next() % 100);
        p.items.push_back(it);
    }
    return p;
}
void run_http(const Plan &plan){
    World w;
    W = &w;
    drained = 0; last_alive = -1; stuck = 0; moved = moved_before = 0;
    simuv::wire_data = [](const S&, const S&, S &d){ if(!d.empty()) moved++; };
    w.plan = plan;
    w.rng.reseed(plan.seed ^ 0x7171);
    simuv::opts.window = (size_t)plan.knob("window");
    simuv::opts.eagain = plan.knob("eagain");
    simuv::opts.chunk = (size_t)std::max<int64_t>(1, plan.knob("chunk", 65536));
    simuv::opts.max_wire = (uint64_t)plan.knob("lat") * MS + 200000;
    int n = (int)std::max<int64_t>(1, std::min<int64_t>(2, plan.knob("clients", 1)));
    for(int i = 0; i < NHOST; i++){
        w.cert[i] = (int)plan.knob(strf("cert%d", i).c_str()) % NCERT;
        if(w.cert[i] == CERT_WILD || w.cert[i] == CERT_PARTWILD) w.cert[i] = CERT_GOOD;
        w.down[i] = (int)plan.knob(strf("down%d", i).c_str()) % 3;
        for(int p : PORTS){
            bool tls = p == 443 || p == 8443;
            simuv::listen_model(strf("10.2.%d.1:%d", i, p), [i, p, tls](simuv::End *e, const S &){
                auto s = new Srv;
                W->conns.emplace_back(s);
                s->e = e; s->host = i; s->port = p; s->tls = tls; s->n = (int)W->conns.size() - 1;
                if(tls){
                    s->ssl = SSL_new((SSL_CTX*)ctxs.server[W->cert[i]]);
                    net_ssl--;
                    SSL_set_bio(s->ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem()));
                    SSL_set_accept_state(s->ssl);
                }
                CX->ev("s%d accepts at h%d:%d", s->n, i, p);
                CX->count("connections");
                return s;
            });
        }
    }
    simuv::resolve = [](const S &node, std::vector<S> &out){
        int i = -1;
        if(sscanf(node.c_str(), "h%d.test", &i) != 1 || i < 0 || i >= NHOST){ CX->fail("H02", "somebody looks for '%s'", node.c_str()); return (int)UV_EAI_NONAME; }
        out.push_back(strf("10.2.%d.1", i));
        return 0;
    };
    simuv::conn_status = [](simuv::Proc*, const S &to){
        int i = 0, p = 0;
        if(sscanf(to.c_str(), "10.2.%d.1:%d", &i, &p) != 2){ CX->fail("H02", "somebody connects to '%s'", to.c_str()); return 0; }
        int d = W->down[i];
        if(d) CX->count(d == 1 ? "fault_silent" : "fault_refused");
        return d == 1 ? 1 : d ? (int)UV_ECONNREFUSED : 0;
    };
    w.p = simuv::spawn("a@10.0.0.1", [n]{
        W->l = gl_open(nullptr);
        for(int i = 0; i < n; i++){ W->cl.emplace_back(); W->cl.back().i = i; W->cl.back().g = gh_new(W->l, ctxs.client, &W->cl.back()); }
        W->rc = gl_run(W->l); W->closed = true;
    });
    simuv::after(10 * MS, next_item);
    uint64_t t0 = simuv::now, lim = t0 + 100000 * SEC, k = 0;
    while(!w.finished && !CX->violated && simuv::step(lim)){
        if(++k > 5000000){ CX->fail("H03", "the clients never rest"); break; }
        if((k & 15) == 0){
            uint64_t h = 9; int live = 0;
            for(auto &q : w.reqs) if(!q->over){ live++; h = mix64(h ^ (uint64_t)(q->canceled + 2 * q->answered + 4 * q->sent_all + 8 * q->eof + 16 * q->awaiting) ^ (uint64_t)q->framing << 8 ^ (uint64_t)q->fault << 16 ^ (uint64_t)std::min<size_t>(q->reads.size(), 3) << 24); }
            int open = 0; for(auto &s : w.conns) open += !s->dead && !s->ended;
            CX->state(h ^ mix64((uint64_t)live * 16 + (uint64_t)open));
        }
    }
    if(!CX->violated && !w.finished) CX->fail("*", "the run did not come to its end");
    bool all = w.finished;
    for(auto &c : w.cl) all = all && c.closed;
    for(auto &q : w.reqs) all = all && q->over;
    if(!CX->violated && all){
        simuv::post(w.p, 0, []{ gl_unkeep(W->l); });
        lim = simuv::now + 5 * SEC;
        while(!CX->violated && simuv::step(lim)) if(++k > 6000000) break;
        for(auto &s : w.conns) if(!s->ended && !s->dead) CX->fail("H03", "all clients are closed, yet a connection is open");
        if(!w.closed) CX->fail("H03", "all clients are closed, yet something keeps the event loop running");
        else if(w.rc) CX->fail("H03", "all clients are closed, yet the event loop can't be closed: %d", w.rc);
        else end_checks("H03", w.p, "the process");
        if(net_ssl) CX->fail("H03", "%ld TLS sessions are left behind", net_ssl);
    }
    CX->count("sim_ms", (int64_t)((simuv::now - t0) / MS));
    CX->count("sim_events", (int64_t)k);
    bool some = false;
    for(auto &q : w.reqs) some |= q->over;
    if(CX->violated || some) CX->count("nontrivial");
    simuv::kill(w.p);
    W = nullptr;
}
