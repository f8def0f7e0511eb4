#include "simuv.h"
#include "vfs.h"
#include "mem.h"
#include <uv.h>
#include <algorithm>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <sys/stat.h>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/mman.h>
#include <time.h>
#include <fcntl.h>
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
// (swapcontext() makes system calls, and ASan's version of it many more)
void simuv_switch(void **save_sp, void *to_sp);
}
__asm__(R"(
.text
.type simuv_switch,@function
simuv_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size simuv_switch,.-simuv_switch
)");

namespace simuv {

uint64_t now = 0;
Rng *rng = nullptr;
Opts opts;
size_t udp_rcvbuf = 200;
std::function<Verdict(const std::string&, const std::string&, const std::string&)> udp_net;
std::function<int(Proc*, const std::string&, const std::string&, const std::string&)> udp_send_status;
std::function<void(Proc*, const std::string&, const std::string&, const std::string&)> udp_handed;
std::function<uint64_t(const std::string&, const std::string&)> wire_delay;
std::function<int(Proc*, const std::string&)> conn_status;
std::function<void(const std::string&, const std::string&, std::string&)> wire_data;
std::function<int(const std::string&, std::vector<std::string>&)> resolve;

static const size_t STACK = 1 << 20;
typedef std::shared_ptr<bool> Token;

struct H;
struct Proc {
    std::string name, host;
    std::function<void()> fn;
    void *sp = nullptr;
    char *stack = nullptr;
    void *fake = nullptr;
    bool started = false, ended = false, dead = false, waiting = false;
    std::function<void()> ev;      // what to run when resumed
    uint64_t stalled = 0;
    std::set<H*> handles;
    size_t reqs = 0;               // active requests
    int next_port = 40000;
};
struct Ev { uint64_t t, tie; Proc *p; Token tok; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t < b->t : a->tie < b->tie; } };
static std::set<Ev*, EvCmp> queue;
static uint64_t seq, nev;
static std::vector<Proc*> procs;
static Proc *cur;
static void *main_sp;
static void *main_fake;
static const void *main_bottom; static size_t main_size;
static std::vector<char*> free_stacks;

struct Dgram { std::string src, data; };
struct WReq { uv_write_t *req; int status; uint64_t when; std::string data; };
struct H {
    uv_handle_t *h; Proc *p; uv_handle_type type;
    bool active = false, closing = false, ref = true;
    uv_close_cb close_cb = nullptr;
    Token tok = std::make_shared<bool>(true);
    // timer, async
    uint64_t gen = 0; uint64_t due = 0, repeat = 0; uv_timer_cb tcb = nullptr; Token ttok;
    uv_async_cb acb = nullptr; bool apending = false;
    // udp
    std::string addr; bool recving = false, polled = false;
    uv_alloc_cb alloc = nullptr; uv_udp_recv_cb ucb = nullptr;
    std::deque<Dgram> dq;
    std::deque<std::pair<uv_udp_send_t*, int>> usends;
    // stream
    End *end = nullptr; bool reading = false; uv_read_cb rcb = nullptr;
    bool listening = false; uv_connection_cb ccb = nullptr; std::deque<End*> backlog;
    std::deque<WReq> writes; uv_shutdown_t *shut = nullptr; bool flushing = false;
    uv_connect_t *conn = nullptr;
    std::string bound_path;
};
struct End {
    H *h = nullptr; Model *m = nullptr; End *peer = nullptr;
    std::string addr, from;
    std::string inbox;
    bool eof_in = false, end_told = false, closed = false, shut = false;
    int err_in = 0;
    uint64_t last_to = 0;          // when the last thing sent to us arrives
    size_t unread = 0;             // bytes sent to us and not yet read
    bool kicked = false;
    Token tok = std::make_shared<bool>(true);
};
static std::unordered_map<uv_handle_t*, H*> handles;
static std::map<std::string, H*> udps;
static std::map<std::string, std::function<void(const std::string&, const std::string&)>> udp_models;
static std::map<std::string, H*> listeners;
static std::map<std::string, std::function<Model*(End*, const std::string&)>> model_listeners;
static std::vector<End*> ends;
static int next_fd;
static std::map<int, std::string> fds;    // bound (or not yet) sockets
struct Lock { Proc *p; };
static std::map<std::string, Lock> locks;


static void push(uint64_t t, Proc *p, Token tok, std::function<void()> fn, bool ordered = false){
    Ev *e = new Ev{t < now ? now : t, 0, p, tok, std::move(fn)};
    // simultaneous events run in any order, except those that must not be
    // reordered among themselves
    e->tie = ordered ? ((uint64_t)1 << 62) + (seq++) : (rng->next() & (((uint64_t)1 << 61) - 1)) * 2 + (seq++ & 1);
    while(!queue.insert(e).second) e->tie++;
}
static uint64_t jitter(){ return opts.max_wire ? rng->next() % opts.max_wire : 0; }

static bool fd_closed(int fd){
    if(fds.erase(fd)) return true;
    // a process that closes any descriptor of a file loses its locks on it
    std::string path = vfs::fd_path(fd);
    auto it = locks.find(path);
    if(!path.empty() && it != locks.end() && it->second.p == cur) locks.erase(it);
    return false;
}
void reset(uint64_t start, Rng *r){
    for(auto e : queue) delete e;
    queue.clear();
    for(auto &h : handles) delete h.second;
    handles.clear(); udps.clear(); udp_models.clear(); listeners.clear(); model_listeners.clear();
    for(auto e : ends) delete e;
    ends.clear();
    for(auto p : procs){
        if(p->stack) free_stacks.push_back(p->stack);
        delete p;
    }
    procs.clear(); fds.clear(); locks.clear();
    next_fd = 50000; cur = nullptr; vfs::on_fd_close = fd_closed; seq = 0; nev = 0;
    now = start; rng = r; opts = Opts(); udp_rcvbuf = 200;
    udp_net = nullptr; udp_send_status = nullptr; udp_handed = nullptr; wire_delay = nullptr; conn_status = nullptr; resolve = nullptr; wire_data = nullptr;
}

// ------------------------------------------------------------- coroutines
static void to_main(){
    Proc *p = cur;
    void **save = p->ended ? nullptr : &p->fake;
    __sanitizer_start_switch_fiber(save, main_bottom, main_size);
    simuv_switch(&p->sp, main_sp);
    __sanitizer_finish_switch_fiber(p->fake, &main_bottom, &main_size);
}
static void entry(){
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
    Proc *p = cur;
    p->fn();
    p->ended = true;
    to_main();
    abort();
}
static void resume(Proc *p){
    Proc *prev = cur;
    cur = p;
    mem::owner = p;
    if(!p->started){
        p->started = true;
        if(free_stacks.empty()) p->stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        else{ p->stack = free_stacks.back(); free_stacks.pop_back(); }
        __asan_unpoison_memory_region(p->stack, STACK);
        // (the frame simuv_switch() pops: six registers, then where to go)
        void **sp = (void**)(p->stack + STACK - 64);
        *--sp = nullptr; *--sp = (void*)entry;
        for(int i = 0; i < 6; i++) *--sp = nullptr;
        p->sp = sp;
    }
    __sanitizer_start_switch_fiber(&main_fake, p->stack, STACK);
    simuv_switch(&main_sp, p->sp);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    cur = prev;
    mem::owner = prev;
}
static void drop_handle_net(H *h, bool killed);
Proc *spawn(const std::string &name, std::function<void()> fn){
    Proc *p = new Proc;
    size_t at = name.find('@');
    p->name = name.substr(0, at);
    p->host = at == std::string::npos ? "127.0.0.1" : name.substr(at + 1);
    p->fn = std::move(fn);
    procs.push_back(p);
    push(now, p, nullptr, [p]{ resume(p); });
    return p;
}
void kill(Proc *p){
    if(p->dead) return;
    p->dead = true;
    std::vector<H*> hs(p->handles.begin(), p->handles.end());
    for(H *h : hs){
        *h->tok = false;
        drop_handle_net(h, true);
        handles.erase(h->h);
        delete h;
    }
    p->handles.clear();
    for(auto it = locks.begin(); it != locks.end();) if(it->second.p == p) it = locks.erase(it); else ++it;
    if(cur != p) mem::drop(p);
    if(p->stack && cur != p){ free_stacks.push_back(p->stack); p->stack = nullptr; }
}
bool ended(Proc *p){ return p->ended || p->dead; }
const std::string &name(Proc *p){ return p->name; }
void stall(Proc *p, uint64_t until){ p->stalled = std::max(p->stalled, until); }
Proc *current(){ return cur; }
void post(Proc *p, uint64_t dt, std::function<void()> fn){ push(now + dt, p, nullptr, std::move(fn)); }
void at(uint64_t t, std::function<void()> fn){ push(t, nullptr, nullptr, std::move(fn)); }
void after(uint64_t dt, std::function<void()> fn){ at(now + dt, std::move(fn)); }
uint64_t events(){ return nev; }
size_t pending_for(Proc *p){ size_t n = 0; for(auto e : queue) n += e->p == p && (!e->tok || *e->tok); return n; }

bool step(uint64_t limit){
    while(!queue.empty()){
        Ev *e = *queue.begin();
        if(e->t > limit){ if(now < limit) now = limit; return false; }
        queue.erase(queue.begin());
        if((e->tok && !*e->tok) || (e->p && (e->p->dead || e->p->ended))){ delete e; continue; }
        if(e->p && e->p->stalled > e->t){
            e->t = e->p->stalled;
            while(!queue.insert(e).second) e->tie++;
            continue;
        }
        if(e->t > now) now = e->t;
        nev++;
        if(!e->p){ auto fn = std::move(e->fn); delete e; fn(); return true; }
        Proc *p = e->p;
        if(!p->started){ auto fn = std::move(e->fn); delete e; fn(); return true; }
        // the process sits in uv_run: it takes the event from there
        p->ev = std::move(e->fn);
        delete e;
        resume(p);
        return true;
    }
    if(now < limit) now = limit;
    return false;
}

static H *find(const void *h){
    auto it = handles.find((uv_handle_t*)h);
    return it == handles.end() ? nullptr : it->second;
}
static H *add(uv_loop_t *loop, uv_handle_t *h, uv_handle_type type){
    H *old = find(h);
    if(old){ fprintf(stderr, "simuv: handle initialized twice\n"); abort(); }
    H *x = new H;
    x->h = h; x->p = cur; x->type = type;
    h->loop = loop; h->type = type; h->flags = 0;
    handles[h] = x;
    cur->handles.insert(x);
    return x;
}
static bool is_active(H *h){
    if(h->closing) return false;
    return h->active || h->recving || h->reading || h->listening;
}
static bool alive(Proc *p){
    if(p->reqs) return true;
    for(H *h : p->handles) if(h->closing || (is_active(h) && h->ref)) return true;
    return false;
}

// ------------------------------------------------------------- addresses
static std::string sa_str(const struct sockaddr *sa){
    char b[64];
    if(sa->sa_family == AF_INET){
        auto s = (const sockaddr_in*)sa;
        inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
        return std::string(b) + ":" + std::to_string(ntohs(s->sin_port));
    }
    auto s = (const sockaddr_in6*)sa;
    inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
    return std::string(b) + ":" + std::to_string(ntohs(s->sin6_port));
}
static struct sockaddr_storage str_sa(const std::string &a){
    struct sockaddr_storage ss;
    memset(&ss, 0, sizeof ss);
    size_t c = a.rfind(':');
    std::string ip = a.substr(0, c);
    int port = atoi(a.c_str() + c + 1);
    if(ip.find(':') == std::string::npos){
        auto s = (sockaddr_in*)&ss;
        s->sin_family = AF_INET; s->sin_port = htons(port);
        inet_pton(AF_INET, ip.c_str(), &s->sin_addr);
    }else{
        auto s = (sockaddr_in6*)&ss;
        s->sin6_family = AF_INET6; s->sin6_port = htons(port);
        inet_pton(AF_INET6, ip.c_str(), &s->sin6_addr);
    }
    return ss;
}
static std::string bind_addr(Proc *p, const std::string &a){
    size_t c = a.rfind(':');
    std::string ip = a.substr(0, c), port = a.substr(c + 1);
    if(ip == "0.0.0.0" || ip == "::" || ip == "127.0.0.1" || ip == "::1") ip = p->host;
    if(port == "0") port = std::to_string(p->next_port++);
    return ip + ":" + port;
}

// ------------------------------------------------------------- datagrams
static void udp_poll(H *h);
static void udp_deliver(const std::string &src, const std::string &dst, const std::string &data){
    auto m = udp_models.find(dst);
    if(m != udp_models.end()){ m->second(src, data); return; }
    auto it = udps.find(dst);
    if(it == udps.end()) return;
    H *h = it->second;
    if(h->dq.size() >= udp_rcvbuf) return;
    h->dq.push_back({src, data});
    udp_poll(h);
}
static void udp_emit(const std::string &src, const std::string &dst, const std::string &data){
    Verdict v;
    if(udp_net) v = udp_net(src, dst, data);
    for(int i = 0; i < v.copies && i < 4; i++){
        push(now + v.delay[i], nullptr, nullptr, [src, dst, data]{ udp_deliver(src, dst, data); });
    }
}
void udp_send_model(const std::string &src, const std::string &dst, const std::string &data){ udp_emit(src, dst, data); }
void udp_bind_model(const std::string &addr, std::function<void(const std::string&, const std::string&)> cb){ udp_models[addr] = cb; }

static void udp_poll(H *h){
    if(!h->recving || h->dq.empty() || h->polled || h->closing) return;
    h->polled = true;
    push(now + rng->next() % 200000, h->p, h->tok, [h]{
        h->polled = false;
        Token tok = h->tok;
        // as libuv: read until nothing is left, or 32 times
        for(int n = 0; n < 32; n++){
            if(!*tok || h->closing || !h->recving) return;
            uv_buf_t buf = {nullptr, 0};
            h->alloc(h->h, 65536, &buf);
            if(!buf.base || !buf.len){
                h->ucb((uv_udp_t*)h->h, UV_ENOBUFS, &buf, nullptr, 0);
                return;
            }
            if(h->dq.empty()){
                h->ucb((uv_udp_t*)h->h, 0, &buf, nullptr, 0);
                return;
            }
            Dgram d = h->dq.front();
            h->dq.pop_front();
            size_t len = std::min(d.data.size(), (size_t)buf.len);
            memcpy(buf.base, d.data.data(), len);
            auto ss = str_sa(d.src);
            if(udp_handed) udp_handed(h->p, d.src, h->addr, d.data);
            h->ucb((uv_udp_t*)h->h, (ssize_t)len, &buf, (struct sockaddr*)&ss, len < d.data.size() ? UV_UDP_PARTIAL : 0);
        }
        if(*tok) udp_poll(h);
    });
}

// ------------------------------------------------------------- streams
static uint64_t wire(End *e){
    uint64_t d = wire_delay ? wire_delay(e->from, e->addr) : jitter();
    return d;
}
static void kick(End *e);
static void took(End *e, size_t n);
static void send_to(End *to, std::function<void()> fn){
    if(!to) return;
    uint64_t t = std::max(to->last_to, now + wire(to));
    to->last_to = t;
    push(t, nullptr, to->tok, fn, true);
}
static void read_one(H *h){
    End *e = h->end;
    if(!e || !h->reading || h->closing) return;
    if(!e->inbox.empty() || e->err_in || e->eof_in){
        if(opts.eagain && rng->next() % 8 == 0){
            uv_buf_t b = {nullptr, 0};
            h->alloc(h->h, 65536, &b);
            if(!b.base || !b.len){ h->rcb((uv_stream_t*)h->h, UV_ENOBUFS, &b); return; }
            Token tok = h->tok;
            h->rcb((uv_stream_t*)h->h, 0, &b);
            if(*tok) kick(e);
            return;
        }
        uv_buf_t buf = {nullptr, 0};
        h->alloc(h->h, 65536, &buf);
        if(!h->reading) return;
        if(!buf.base || !buf.len){ h->rcb((uv_stream_t*)h->h, UV_ENOBUFS, &buf); return; }
        if(e->err_in){
            h->reading = false;
            h->rcb((uv_stream_t*)h->h, e->err_in, &buf);
            return;
        }
        if(e->inbox.empty()){
            h->reading = false;
            h->rcb((uv_stream_t*)h->h, UV_EOF, &buf);
            return;
        }
        size_t n = std::min({(size_t)buf.len, e->inbox.size(), opts.chunk});
        if(rng->next() % 3 == 0) n = 1 + rng->next() % n;
        memcpy(buf.base, e->inbox.data(), n);
        e->inbox.erase(0, n);
        took(e, n);
        Token tok = h->tok;
        h->rcb((uv_stream_t*)h->h, (ssize_t)n, &buf);
        if(*tok) kick(e);
    }
}
static void (*wake_writer)(H *h);
static void kick(End *e){
    // (writes that wait for room fail too)
    if(opts.window && !e->closed && e->err_in && e->h) wake_writer(e->h);
    if(e->closed || e->kicked) return;
    if(e->inbox.empty() && !e->eof_in && !e->err_in) return;
    if(e->m){
        if(e->end_told) return;
        e->kicked = true;
        push(now, nullptr, e->tok, [e]{
            e->kicked = false;
            if(e->closed || !e->m) return;
            if(!e->inbox.empty()){
                std::string d;
                d.swap(e->inbox);
                took(e, d.size());
                Token t = e->tok;
                e->m->on_data(d);
                if(!*t || e->closed) return;
            }
            if(e->inbox.empty() && (e->err_in || e->eof_in) && !e->end_told){
                e->end_told = true;
                e->m->on_end(e->err_in ? e->err_in : UV_EOF);
            }
        });
        return;
    }
    H *h = e->h;
    if(!h || !h->reading || h->closing) return;
    e->kicked = true;
    // (as the handle may be closed before, the flag is cleared either way)
    push(now + rng->next() % 100000, h->p, h->tok, [h, e]{
        e->kicked = false;
        read_one(h);
    });
}
static void end_close(End *e, bool rst){
    if(e->closed) return;
    e->closed = true;
    End *p = e->peer;
    bool unread = !e->inbox.empty();
    if(p && !p->closed){
        if(rst || unread){
            send_to(p, [p]{
                if(p->closed) return;
                if(rng->next() & 1) p->inbox.clear();
                p->err_in = UV_ECONNRESET;
                kick(p);
            });
        }else if(!e->shut){
            send_to(p, [p]{ if(!p->closed){ p->eof_in = true; kick(p); } });
        }
    }
    e->h = nullptr;
}
static int do_write(End *e, std::string data){
    End *p = e->peer;
    if(wire_data) wire_data(e->from, e->addr, data);
    if(e->err_in) return e->err_in;
    if(!p || p->closed){
        // the other side answers with a reset
        send_to(e, [e]{ if(!e->closed && !e->err_in){ e->err_in = UV_ECONNRESET; kick(e); } });
        return rng->next() & 1 ? 0 : UV_EPIPE;
    }
    p->unread += data.size();
    send_to(p, [p, data]{
        if(p->closed){
            End *q = p->peer;
            if(q && !q->closed) send_to(q, [q]{ if(!q->closed && !q->err_in){ q->err_in = UV_ECONNRESET; kick(q); } });
            return;
        }
        if(p->err_in) return;
        p->inbox += data;
        kick(p);
    });
    return 0;
}
static void took(End *e, size_t n){
    e->unread -= std::min(n, e->unread);
    End *p = e->peer;
    if(opts.window && p && !p->closed && p->h) wake_writer(p->h);
}
int cut(const std::string &addr, bool fin){
    int n = 0;
    for(End *e : ends){
        if(e->closed || !e->peer || e->peer->closed) continue;
        if(e->addr != addr && e->from != addr) continue;
        for(End *x : {e, e->peer}){
            // (what was on its way does not arrive)
            *x->tok = false;
            x->tok = std::make_shared<bool>(true);
            x->kicked = false;
            if(fin) x->eof_in = true; else { x->err_in = UV_ECONNRESET; if(rng->next() & 1) x->inbox.clear(); }
        }
        End *a = e, *b = e->peer;
        a->peer = nullptr; b->peer = nullptr;
        for(End *x : {a, b}){ kick(x); if(x->h) wake_writer(x->h); }
        n++;
    }
    return n;
}
static End *mkend(){ End *e = new End; ends.push_back(e); return e; }
static void pair(End *a, End *b, const std::string &from, const std::string &to){
    a->peer = b; b->peer = a;
    a->addr = to; b->addr = from; a->from = from; b->from = to;
}
static void listener_poll(H *l){
    push(now + rng->next() % 100000, l->p, l->tok, [l]{
        if(!l->listening || l->closing || l->backlog.empty()) return;
        l->ccb((uv_stream_t*)l->h, 0);
    });
}
// connects e to whatever listens there; 0 or a uv error
static int dial(End *e, const std::string &from, const std::string &to){
    auto ml = model_listeners.find(to);
    if(ml != model_listeners.end()){
        End *b = mkend();
        pair(e, b, from, to);
        b->m = ml->second(b, from);
        if(!b->m){ e->peer = nullptr; b->closed = true; return UV_ECONNREFUSED; }
        return 0;
    }
    if(to[0] == '/' && !vfs::exists(to)) return UV_ENOENT;
    auto it = listeners.find(to);
    if(it == listeners.end()) return UV_ECONNREFUSED;
    End *b = mkend();
    pair(e, b, from, to);
    it->second->backlog.push_back(b);
    listener_poll(it->second);
    return 0;
}
End *connect(const std::string &addr, Model *m, const std::string &from){
    End *e = mkend();
    e->m = m; e->addr = addr; e->from = from;
    push(now + wire(e), nullptr, e->tok, [e, addr, from]{
        if(e->closed) return;
        int st = dial(e, from, addr);
        if(st){ e->closed = true; e->end_told = true; }
        e->m->on_connect(st);
    });
    return e;
}
void listen_model(const std::string &addr, std::function<Model*(End*, const std::string&)> fn){ model_listeners[addr] = fn; }
void unlisten_model(const std::string &addr){ model_listeners.erase(addr); }
void write(End *e, const std::string &data){ if(!e->closed && !e->shut) do_write(e, data); }
void shutdown(End *e){
    if(e->closed || e->shut) return;
    e->shut = true;
    End *p = e->peer;
    if(p) send_to(p, [p]{ if(!p->closed){ p->eof_in = true; kick(p); } });
}
void close(End *e, bool rst){ end_close(e, rst); }

// ------------------------------------------------------------- closing
static void drop_handle_net(H *h, bool killed){
    if(!h->addr.empty()){
        auto it = udps.find(h->addr);
        if(it != udps.end() && it->second == h) udps.erase(it);
        auto il = listeners.find(h->addr);
        if(il != listeners.end() && il->second == h) listeners.erase(il);
    }
    for(End *e : h->backlog) end_close(e, true);
    h->backlog.clear();
    if(!h->bound_path.empty() && !killed) vfs::remove_file(h->bound_path);
    if(h->end){ End *e = h->end; end_close(e, false); h->end = nullptr; }
}
} // namespace simuv

using namespace simuv;
typedef simuv::H H;

extern "C" {
int __real_close(int fd);

// ------------------------------------------------------------- loop
int uv_loop_init(uv_loop_t *l){ void *d = l->data; memset(l, 0, sizeof(*l)); l->data = d; return 0; }
int uv_loop_close(uv_loop_t *l){
    for(H *h : cur->handles) if(h->h->loop == l) return UV_EBUSY;
    return 0;
}
int uv_run(uv_loop_t *l, uv_run_mode mode){
    Proc *p = cur;
    do{
        if(!alive(p)) return 0;
        p->waiting = true;
        to_main();
        p->waiting = false;
        std::function<void()> fn = std::move(p->ev);
        p->ev = nullptr;
        if(fn) fn();
    }while(mode == UV_RUN_DEFAULT && !l->stop_flag);
    l->stop_flag = 0;
    return alive(p);
}
void uv_stop(uv_loop_t *l){ l->stop_flag = 1; }
int uv_loop_alive(const uv_loop_t *){ return alive(cur); }
uint64_t uv_now(const uv_loop_t *){ return simuv::now / 1000000; }
uint64_t uv_hrtime(void){ return simuv::now; }
void uv_update_time(uv_loop_t *){}
void uv_walk(uv_loop_t *, uv_walk_cb cb, void *arg){
    std::vector<H*> hs(cur->handles.begin(), cur->handles.end());
    for(H *h : hs) cb(h->h, arg);
}
int uv_is_active(const uv_handle_t *h){ H *x = find(h); return x && is_active(x); }
int uv_is_closing(const uv_handle_t *h){ return h->flags & 1; }
void uv_ref(uv_handle_t *h){ H *x = find(h); if(x) x->ref = true; }
void uv_unref(uv_handle_t *h){ H *x = find(h); if(x) x->ref = false; }
int uv_has_ref(const uv_handle_t *h){ H *x = find(h); return x && x->ref; }

void uv_close(uv_handle_t *h, uv_close_cb cb){
    H *x = find(h);
    if(!x || x->closing){ fprintf(stderr, "simuv: uv_close() on a %s handle\n", x ? "closing" : "dead"); abort(); }
    x->closing = true;
    x->close_cb = cb;
    if(x->ttok) *x->ttok = false;
    h->flags |= 1;
    x->active = x->recving = x->reading = x->listening = false;
    drop_handle_net(x, false);
    // nothing else happens on this handle, except for what ends its requests
    Token was = x->tok;
    *was = false;
    x->tok = std::make_shared<bool>(true);
    push(simuv::now + rng->next() % 50000, x->p, x->tok, [x]{
        Proc *p = x->p;
        if(x->conn){ auto r = x->conn; x->conn = nullptr; p->reqs--; r->cb(r, UV_ECANCELED); }
        while(!x->writes.empty()){
            WReq w = x->writes.front(); x->writes.pop_front();
            p->reqs--;
            if(w.req->cb) w.req->cb(w.req, UV_ECANCELED);
        }
        if(x->shut){ auto r = x->shut; x->shut = nullptr; p->reqs--; r->cb(r, UV_ECANCELED); }
        while(!x->usends.empty()){
            auto u = x->usends.front(); x->usends.pop_front();
            p->reqs--;
            if(u.first->cb) u.first->cb(u.first, u.second ? u.second : 0);
        }
        uv_handle_t *h = x->h;
        uv_close_cb cb = x->close_cb;
        p->handles.erase(x);
        handles.erase(h);
        h->flags |= 2;
        *x->tok = false;
        delete x;
        if(cb) cb(h);
    });
}

// ------------------------------------------------------------- timers
int uv_timer_init(uv_loop_t *l, uv_timer_t *t){ add(l, (uv_handle_t*)t, UV_TIMER); return 0; }
static void timer_arm(H *x){
    uint64_t lag = rng->next() % 16 == 0 ? rng->next() % 3000000 : rng->next() % 200000;
    x->ttok = std::make_shared<bool>(true);
    Token tt = x->ttok;
    push(x->due * 1000000 + lag, x->p, tt, [x, tt]{
        *tt = false;
        if(!x->active || x->closing) return;
        if(x->repeat){ x->due = simuv::now / 1000000 + x->repeat; timer_arm(x); }
        else x->active = false;
        x->tcb((uv_timer_t*)x->h);
    });
}
int uv_timer_start(uv_timer_t *t, uv_timer_cb cb, uint64_t timeout, uint64_t repeat){
    H *x = find(t);
    if(!x || x->closing || !cb) return UV_EINVAL;
    if(x->ttok) *x->ttok = false;
    x->tcb = cb; x->repeat = repeat; x->active = true;
    uint64_t base = simuv::now / 1000000;
    x->due = base + timeout;
    if(x->due < timeout) x->due = (uint64_t)-1 / 2000000;
    if(x->due > (uint64_t)-1 / 2000000) x->due = (uint64_t)-1 / 2000000;
    timer_arm(x);
    return 0;
}
int uv_timer_stop(uv_timer_t *t){
    H *x = find(t);
    if(!x) return 0;
    if(x->ttok) *x->ttok = false;
    x->active = false;
    return 0;
}

// ------------------------------------------------------------- async
int uv_async_init(uv_loop_t *l, uv_async_t *a, uv_async_cb cb){
    H *x = add(l, (uv_handle_t*)a, UV_ASYNC);
    x->acb = cb; x->active = true;
    return 0;
}
int uv_async_send(uv_async_t *a){
    H *x = find(a);
    if(!x || x->closing) return 0;
    if(x->apending) return 0;
    x->apending = true;
    push(simuv::now + rng->next() % 50000, x->p, x->tok, [x]{ x->apending = false; if(x->acb) x->acb((uv_async_t*)x->h); });
    return 0;
}

// ------------------------------------------------------------- work
struct WorkState { bool started = false, canceled = false; Token tok; };
static std::map<uv_work_t*, WorkState> works;
int uv_queue_work(uv_loop_t *l, uv_work_t *r, uv_work_cb w, uv_after_work_cb a){
    Proc *p = cur;
    r->loop = l; r->type = UV_WORK;
    p->reqs++;
    works[r] = WorkState();
    works[r].tok = std::make_shared<bool>(true);
    push(simuv::now + rng->next() % 3000000, p, works[r].tok, [r, w, a, p]{
        auto it = works.find(r);
        if(it->second.canceled){
            works.erase(it); p->reqs--;
            if(a) a(r, UV_ECANCELED);
            return;
        }
        it->second.started = true;
        w(r);
        push(simuv::now + rng->next() % 3000000, p, it->second.tok, [r, a, p]{
            works.erase(r); p->reqs--;
            if(a) a(r, 0);
        });
    });
    return 0;
}

// ------------------------------------------------------------- getaddrinfo
struct GaiState { bool canceled = false; };
static std::map<uv_getaddrinfo_t*, GaiState> gais;
int uv_getaddrinfo(uv_loop_t *l, uv_getaddrinfo_t *r, uv_getaddrinfo_cb cb, const char *node, const char *service, const struct addrinfo *){
    Proc *p = cur;
    r->loop = l; r->type = UV_GETADDRINFO;
    std::string n = node ? node : "", s = service ? service : "0";
    p->reqs++;
    gais[r] = GaiState();
    push(simuv::now + jitter() * (1 + rng->next() % 4), p, nullptr, [r, cb, n, s, p]{
        bool canceled = gais[r].canceled;
        gais.erase(r);
        p->reqs--;
        if(canceled){ cb(r, UV_EAI_CANCELED, nullptr); return; }
        std::vector<std::string> out;
        int st = resolve ? resolve(n, out) : 0;
        if(!resolve) out.push_back("127.0.0.1");
        if(st){ cb(r, st, nullptr); return; }
        struct addrinfo *first = nullptr, **tail = &first;
        std::string port = s == "https" ? "443" : s == "http" ? "80" : s == "imaps" ? "993" : s == "imap" ? "143" : s;
        for(auto &a : out){
            // (one block, as many resolvers do)
            char *mem = (char*)malloc(sizeof(struct addrinfo) + sizeof(struct sockaddr_storage));
            auto ai = (struct addrinfo*)mem;
            memset(ai, 0, sizeof(*ai));
            auto ss = str_sa(a + ":" + port);
            memcpy(mem + sizeof(struct addrinfo), &ss, sizeof ss);
            ai->ai_addr = (struct sockaddr*)(mem + sizeof(struct addrinfo));
            ai->ai_family = ss.ss_family;
            ai->ai_socktype = SOCK_STREAM;
            ai->ai_addrlen = ss.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
            *tail = ai; tail = &ai->ai_next;
        }
        cb(r, 0, first);
    });
    return 0;
}
void uv_freeaddrinfo(struct addrinfo *ai){ while(ai){ auto n = ai->ai_next; free(ai); ai = n; } }
int uv_cancel(uv_req_t *r){
    auto w = works.find((uv_work_t*)r);
    if(r->type == UV_WORK){
        if(w == works.end() || w->second.started || w->second.canceled) return UV_EBUSY;
        w->second.canceled = true;
        return 0;
    }
    if(r->type == UV_GETADDRINFO){
        auto g = gais.find((uv_getaddrinfo_t*)r);
        if(g == gais.end() || rng->next() % 2) return UV_EBUSY;
        g->second.canceled = true;
        return 0;
    }
    return UV_EINVAL;
}

// ------------------------------------------------------------- udp
int uv_udp_init(uv_loop_t *l, uv_udp_t *u){ add(l, (uv_handle_t*)u, UV_UDP); return 0; }
static int udp_bind_to(H *x, const std::string &a){
    std::string b = bind_addr(x->p, a);
    if(udps.count(b)) return UV_EADDRINUSE;
    udps[b] = x; x->addr = b;
    return 0;
}
int uv_udp_open(uv_udp_t *u, uv_os_sock_t fd){
    H *x = find(u);
    auto it = fds.find(fd);
    if(it == fds.end()) return UV_EBADF;
    std::string a = it->second; fds.erase(it);
    return udp_bind_to(x, a);
}
int uv_udp_bind(uv_udp_t *u, const struct sockaddr *sa, unsigned int){ return udp_bind_to(find(u), sa_str(sa)); }
int uv_udp_recv_start(uv_udp_t *u, uv_alloc_cb a, uv_udp_recv_cb cb){
    H *x = find(u);
    if(!x || x->closing || !a || !cb) return UV_EINVAL;
    if(x->recving) return UV_EALREADY;
    x->alloc = a; x->ucb = cb; x->recving = true;
    udp_poll(x);
    return 0;
}
int uv_udp_recv_stop(uv_udp_t *u){ H *x = find(u); if(x) x->recving = false; return 0; }
int uv_udp_send(uv_udp_send_t *r, uv_udp_t *u, const uv_buf_t *b, unsigned int n, const struct sockaddr *sa, uv_udp_send_cb cb){
    H *x = find(u);
    if(!x || x->closing) return UV_EBADF;
    std::string data, dst = sa_str(sa);
    for(unsigned i = 0; i < n; i++) data.append(b[i].base, b[i].len);
    r->handle = u; r->type = UV_UDP_SEND; r->cb = cb;
    int st = udp_send_status ? udp_send_status(x->p, x->addr, dst, data) : 0;
    if(!st) udp_emit(x->addr, dst, data);
    x->p->reqs++;
    x->usends.push_back({r, st});
    push(simuv::now + rng->next() % 100000, x->p, x->tok, [x]{
        if(x->usends.empty()) return;
        auto s = x->usends.front(); x->usends.pop_front();
        x->p->reqs--;
        if(s.first->cb) s.first->cb(s.first, s.second);
    });
    return 0;
}

// ------------------------------------------------------------- streams
int uv_tcp_init(uv_loop_t *l, uv_tcp_t *t){ add(l, (uv_handle_t*)t, UV_TCP); return 0; }
int uv_tcp_init_ex(uv_loop_t *l, uv_tcp_t *t, unsigned int){ return uv_tcp_init(l, t); }
int uv_tcp_nodelay(uv_tcp_t*, int){ return 0; }
int uv_tcp_keepalive(uv_tcp_t*, int, unsigned int){ return 0; }
int uv_tcp_open(uv_tcp_t *t, uv_os_sock_t fd){
    H *x = find(t);
    auto it = fds.find(fd);
    if(it == fds.end()) return UV_EBADF;
    x->addr = bind_addr(x->p, it->second); fds.erase(it);
    return 0;
}
int uv_tcp_bind(uv_tcp_t *t, const struct sockaddr *sa, unsigned int){ H *x = find(t); x->addr = bind_addr(x->p, sa_str(sa)); return 0; }
int uv_pipe_init(uv_loop_t *l, uv_pipe_t *t, int){ add(l, (uv_handle_t*)t, UV_NAMED_PIPE); return 0; }
int uv_pipe_open(uv_pipe_t *t, uv_file fd){
    H *x = find(t);
    auto it = fds.find(fd);
    if(it == fds.end()) return UV_EBADF;
    x->addr = it->second; fds.erase(it);
    return 0;
}
int uv_pipe_chmod(uv_pipe_t*, int){ return 0; }
int uv_pipe_bind(uv_pipe_t *t, const char *path){
    H *x = find(t);
    if(vfs::exists(path)) return UV_EADDRINUSE;
    if(!vfs::put(path, "")) return UV_ENOENT;
    x->addr = x->bound_path = path;
    return 0;
}
int uv_listen(uv_stream_t *s, int, uv_connection_cb cb){
    H *x = find(s);
    if(!x || x->closing) return UV_EINVAL;
    auto it = listeners.find(x->addr);
    if(it != listeners.end() && x->type == UV_TCP) return UV_EADDRINUSE;
    listeners[x->addr] = x;      // (a path that was unlinked and bound again is the new one's)
    x->listening = true; x->ccb = cb;
    return 0;
}
int uv_accept(uv_stream_t *s, uv_stream_t *c){
    H *x = find(s), *y = find(c);
    if(x->backlog.empty()) return UV_EAGAIN;
    End *e = x->backlog.front(); x->backlog.pop_front();
    e->h = y; y->end = e;
    if(!x->backlog.empty()) listener_poll(x);
    return 0;
}
static int start_connect(H *x, uv_connect_t *r, const std::string &to){
    Proc *p = x->p;
    int st = conn_status ? conn_status(p, to) : 0;
    // (these connect() knows at once, and libuv tells at once)
    if(st == UV_ENETUNREACH || st == UV_EADDRNOTAVAIL || st == UV_EACCES) return st;
    std::string from = to[0] == '/' ? p->host : p->host + ":" + std::to_string(p->next_port++);
    p->reqs++;
    x->conn = r;
    uint64_t d = wire_delay ? wire_delay(from, to) : jitter();
    if(st == 1) d = 127ull * 1000000000;   // no answer at all
    push(simuv::now + d, p, x->tok, [x, r, from, to, st, p]{
        if(x->conn != r) return;
        x->conn = nullptr;
        p->reqs--;
        int s = st == 1 ? UV_ETIMEDOUT : st;
        if(!s){
            End *e = mkend();
            e->addr = to; e->from = from;
            s = dial(e, from, to);
            if(s) e->closed = true;
            else{ e->h = x; x->end = e; }
        }
        r->cb(r, s);
    });
    return 0;
}
int uv_tcp_connect(uv_connect_t *r, uv_tcp_t *t, const struct sockaddr *sa, uv_connect_cb cb){
    H *x = find(t);
    if(!x || x->closing) return UV_EINVAL;
    if(x->conn) return UV_EALREADY;
    r->type = UV_CONNECT; r->handle = (uv_stream_t*)t; r->cb = cb;
    return start_connect(x, r, sa_str(sa));
}
void uv_pipe_connect(uv_connect_t *r, uv_pipe_t *t, const char *path, uv_connect_cb cb){
    r->type = UV_CONNECT; r->handle = (uv_stream_t*)t; r->cb = cb;
    start_connect(find(t), r, path);
}
int uv_read_start(uv_stream_t *s, uv_alloc_cb a, uv_read_cb cb){
    H *x = find(s);
    if(!x || x->closing || !a || !cb) return UV_EINVAL;
    if(!x->end) return UV_ENOTCONN;
    if(x->reading) return UV_EALREADY;
    x->alloc = a; x->rcb = cb; x->reading = true;
    x->end->kicked = false;
    kick(x->end);
    return 0;
}
int uv_read_stop(uv_stream_t *s){ H *x = find(s); if(x) x->reading = false; return 0; }
static void write_done(H *x);
static bool room(H *x){
    End *p = x->end->peer;
    return !opts.window || !p || p->closed || x->end->err_in || p->unread < opts.window;
}
// a window that was full: what waits is sent as far as it goes
static void flush(H *x){
    while(!x->writes.empty()){
        WReq *w = nullptr;
        for(auto &i : x->writes) if(!i.data.empty()){ w = &i; break; }
        if(!w || !room(x)) return;
        End *p = x->end->peer;
        size_t n = w->data.size();
        if(p && !p->closed && !x->end->err_in) n = std::min(n, opts.window - p->unread);
        if(rng->next() % 4 == 0) n = 1 + rng->next() % n;
        int st = do_write(x->end, w->data.substr(0, n));
        w->data.erase(0, n);
        if(st){ w->status = st; w->data.clear(); }
        if(!w->data.empty()) continue;
        w->when = std::max(w->when, simuv::now + rng->next() % 300000);
        push(w->when, x->p, x->tok, [x]{ write_done(x); });
    }
}
static void flush_soon(H *x){
    if(x->flushing) return;
    x->flushing = true;
    push(simuv::now + (rng->next() & 1 ? jitter() : rng->next() % 200000), x->p, x->tok, [x]{ x->flushing = false; if(x->end) flush(x); });
}
static bool flush_set = (wake_writer = flush_soon, true);
int uv_write(uv_write_t *r, uv_stream_t *s, const uv_buf_t *b, unsigned int n, uv_write_cb cb){
    H *x = find(s);
    if(!x || x->closing || !x->end) return UV_EBADF;
    if(x->end->shut) return UV_EPIPE;
    std::string data;
    for(unsigned i = 0; i < n; i++) data.append(b[i].base, b[i].len);
    r->type = UV_WRITE; r->handle = s; r->cb = cb;
    if(opts.window){
        x->p->reqs++;
        bool first = x->writes.empty();
        x->writes.push_back({r, 0, simuv::now, data});
        // (as libuv: one try at once, and what is left when there is room)
        if(first && rng->next() % 8) flush(x); else flush_soon(x);
        return 0;
    }
    int st = do_write(x->end, data);
    x->p->reqs++;
    uint64_t when = simuv::now + rng->next() % 300000;
    if(rng->next() % 16 == 0) when += jitter() * 4;
    if(!x->writes.empty() && x->writes.back().when > when) when = x->writes.back().when;
    x->writes.push_back({r, st, when});
    push(when, x->p, x->tok, [x]{ write_done(x); });
    return 0;
}
static void finish_shutdown(H *x){
    if(!x->shut || !x->writes.empty()) return;
    push(simuv::now + rng->next() % 100000, x->p, x->tok, [x]{
        if(!x->shut) return;
        auto r = x->shut; x->shut = nullptr;
        x->p->reqs--;
        int st = x->end->err_in ? UV_ENOTCONN : 0;
        simuv::shutdown(x->end);
        r->cb(r, st);
    });
}
static void write_done(H *x){
    if(x->writes.empty() || !x->writes.front().data.empty()) return;
    WReq w = x->writes.front(); x->writes.pop_front();
    x->p->reqs--;
    Token tok = x->tok;
    if(w.req->cb) w.req->cb(w.req, w.status);
    if(*tok && x->shut) finish_shutdown(x);
}
int uv_shutdown(uv_shutdown_t *r, uv_stream_t *s, uv_shutdown_cb cb){
    H *x = find(s);
    if(!x || x->closing || !x->end) return UV_ENOTCONN;
    if(x->shut || x->end->shut) return UV_ENOTCONN;
    r->type = UV_SHUTDOWN; r->handle = s; r->cb = cb;
    x->shut = r; x->p->reqs++;
    finish_shutdown(x);
    return 0;
}

int uv_ip4_addr(const char *ip, int port, struct sockaddr_in *a){
    auto ss = str_sa(std::string(ip) + ":" + std::to_string(port));
    memcpy(a, &ss, sizeof(*a));
    return 0;
}
__attribute__((weak)) const char *uv_strerror(int e){ static char b[32]; snprintf(b, sizeof b, "uv error %d", e); return b; }

// ------------------------------------------------------------- libc
int __wrap_socket(int, int, int){ int fd = next_fd++; fds[fd] = "0.0.0.0:0"; return fd; }
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t){
    auto it = fds.find(fd);
    if(it == fds.end()){ errno = EBADF; return -1; }
    std::string a = sa_str(sa), b = cur ? bind_addr(cur, a) : a;
    if(listeners.count(b) || udps.count(b)){ errno = EADDRINUSE; return -1; }
    it->second = a;
    return 0;
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t){ return 0; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts){
    if(!cur) return __real_clock_gettime(c, ts);
    ts->tv_sec = (time_t)(simuv::now / 1000000000);
    ts->tv_nsec = (long)(simuv::now % 1000000000);
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...){
    va_list ap; va_start(ap, cmd);
    void *arg = va_arg(ap, void*);
    va_end(ap);
    if(cmd != F_SETLK) return 0;
    std::string path = vfs::fd_path(fd);
    if(path.empty()){ errno = EBADF; return -1; }
    struct flock *f = (struct flock*)arg;
    auto it = locks.find(path);
    if(it != locks.end() && it->second.p != cur){
        if(f->l_type == F_UNLCK) return 0;
        errno = EAGAIN;
        return -1;
    }
    if(f->l_type == F_UNLCK) locks.erase(path); else locks[path] = {cur};
    return 0;
}
mode_t __wrap_umask(mode_t){ return 022; }
typedef void (*sighandler)(int);
sighandler __wrap_signal(int, sighandler){ return nullptr; }
}
