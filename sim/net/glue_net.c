#include <stdlib.h>
#include <string.h>
#include <openssl/ssl.h>
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "libcrypto/libcrypto.h"
#include "libduvtls/libduvtls.h"
#include "libhttp/libhttp.h"
#include "glue.h"
void *__real_calloc(size_t, size_t);
void __real_free(void*);

struct gloop {
    void *user;
    uv_loop_t loop; duv_scheduler_t sched; uv_async_t keep; uv_tcp_t listener[4]; bool listening[4], unkept;
};
struct gs {
    void *user; gloop *l;
    uv_tcp_t tcp; duv_passthru_t pt; duv_tls_t tls; stream_i *s;
    uv_connect_t creq; duv_connect_t conn; stream_read_t raw;
};
typedef struct { stream_read_t r; void *id; } rd;
typedef struct { stream_write_t w; void *id; } wr;
typedef struct { rstream_read_t r; void *id; } rrd;
struct gh { duv_http_t h; void *user; };
struct ghreq { duv_http_req_t r; void *user; rstream_i *s; char *url; http_pairs_t *pairs, *params; dstr_t durl; };

static void die(const char *what){ LOG_FATAL("sim: %x\n", FS(what)); }
static const char *ename(derr_t e){
    static char b[128];
    if(!is_error(e)) return NULL;
    dstr_t d = error_to_dstr(e.type);
    size_t n = d.len < sizeof(b) - 1 ? d.len : sizeof(b) - 1;
    memcpy(b, d.data, n); b[n] = 0;
    if(getenv("SIM_LOG")) DUMP(e);
    return b;
}
void net_process_init(void){
    if(getenv("SIM_LOG")) logger_add_fileptr(LOG_LVL_DEBUG, stderr);
    derr_t e = ssl_library_init();
    if(is_error(e)) abort();
}
// ------------------------------------------------------------- loops
static void keep_cb(uv_async_t *a){ (void)a; }
gloop *gl_open(void *user){
    gloop *l = __real_calloc(1, sizeof(*l));
    l->user = user;
    if(uv_loop_init(&l->loop)) die("loop");
    derr_t e = duv_scheduler_init(&l->sched, &l->loop);
    if(is_error(e)) die("scheduler");
    uv_async_init(&l->loop, &l->keep, keep_cb);
    return l;
}
static void on_conn(uv_stream_t *s, int st){ if(!st){ gloop *l = s->data; net_accepted(l->user, (int)((uv_tcp_t*)s - l->listener)); } }
int gl_listen(gloop *l, int i, const char *ip, int port){
    struct sockaddr_in a;
    uv_ip4_addr(ip, port, &a);
    uv_tcp_init(&l->loop, &l->listener[i]);
    l->listener[i].data = l;
    l->listening[i] = true;
    int st = uv_tcp_bind(&l->listener[i], (struct sockaddr*)&a, 0);
    return st ? st : uv_listen((uv_stream_t*)&l->listener[i], 10, on_conn);
}
void gl_unkeep(gloop *l){
    if(l->unkept) return;
    l->unkept = true;
    uv_close((uv_handle_t*)&l->keep, NULL);
    for(int i = 0; i < 4; i++) if(l->listening[i]) uv_close((uv_handle_t*)&l->listener[i], NULL);
}
int gl_run(gloop *l){
    int st = uv_run(&l->loop, UV_RUN_DEFAULT);
    duv_scheduler_close(&l->sched);
    int c = uv_loop_close(&l->loop);
    __real_free(l);
    return st ? st : c;
}
// ------------------------------------------------------------- streams
static void connected(uv_connect_t *r, int st){
    gs *s = r->data;
    if(st){ uv_close((uv_handle_t*)&s->tcp, NULL); }
    net_connected(s->user, st);
}
gs *gs_dial(gloop *l, const char *ip, int port, void *user){
    gs *s = __real_calloc(1, sizeof(*s));
    s->l = l; s->user = user; s->creq.data = s;
    struct sockaddr_in a;
    uv_ip4_addr(ip, port, &a);
    uv_tcp_init(&l->loop, &s->tcp);
    if(uv_tcp_connect(&s->creq, &s->tcp, (struct sockaddr*)&a, connected)) die("tcp_connect");
    return s;
}
gs *gs_accept(gloop *l, int i, void *user){
    gs *s = __real_calloc(1, sizeof(*s));
    s->l = l; s->user = user;
    uv_tcp_init(&l->loop, &s->tcp);
    if(uv_accept((uv_stream_t*)&l->listener[i], (uv_stream_t*)&s->tcp)) die("accept");
    return s;
}
static void found(duv_connect_t *c, derr_t e){
    gs *s = c->data;
    const char *n = ename(e);
    void *u = s->user;
    DROP_VAR(&e);
    if(n) __real_free(s);
    net_found(u, n);
}
gs *gs_find(gloop *l, const char *node, const char *service, void *user){
    gs *s = __real_calloc(1, sizeof(*s));
    s->l = l; s->user = user; s->conn.data = s;
    derr_t e = duv_connect(&l->loop, &s->tcp, 0, &s->conn, found, dstr_from_cstr((char*)node), dstr_from_cstr((char*)service), NULL);
    if(is_error(e)) die("duv_connect");
    return s;
}
void gs_find_cancel(gs *s){ duv_connect_cancel(&s->conn); }
static void on_read(stream_i *i, stream_read_t *req, dstr_t buf){
    gs *s = i->data; rd *r = (rd*)req; void *id = r->id;
    __real_free(r);
    net_read(s->user, id, buf.data, buf.len);
}
static void on_write(stream_i *i, stream_write_t *req){
    gs *s = i->data; wr *w = (wr*)req; void *id = w->id;
    __real_free(w);
    net_write(s->user, id);
}
static void on_shutdown(stream_i *i){ net_shutdown(((gs*)i->data)->user); }
static void on_await(stream_i *i, derr_t e, link_t *reads, link_t *writes){
    gs *s = i->data;
    void *rs[4096], *ws[4096];
    int nr = 0, nw = 0;
    link_t *l;
    while((l = link_list_pop_first(reads))){
        rd *r = (rd*)CONTAINER_OF(l, stream_read_t, link);
        if(r->r.cb != on_read) die("a read of somebody else");
        rs[nr++] = r->id; __real_free(r);
    }
    while((l = link_list_pop_first(writes))){
        wr *w = (wr*)CONTAINER_OF(l, stream_write_t, link);
        if(w->w.cb != on_write) die("a write of somebody else");
        ws[nw++] = w->id; __real_free(w);
    }
    const char *n = ename(e);
    DROP_VAR(&e);
    void *u = s->user;
    if(!i->awaited) die("await_cb before awaited");
    memset(s, 0x5a, sizeof(*s));
    __real_free(s);
    net_await(u, n, rs, nr, ws, nw);
}
static void raw_read(stream_i *i, stream_read_t *req, dstr_t buf){
    gs *s = i->data;
    (void)req;
    net_raw(s->user, buf.len);
}
void gs_raw_read(gs *s, char *buf, size_t n){
    s->s = duv_passthru_init_tcp(&s->pt, &s->l->sched, &s->tcp);
    s->s->data = s;
    if(!s->s->read(s->s, &s->raw, (dstr_t){ .data = buf, .size = n, .fixed_size = true }, raw_read)) die("raw read");
}
const char *gs_start(gs *s, int kind, void *ctx, const char *verify, const char *pre, size_t npre){
    if(!s->s) s->s = duv_passthru_init_tcp(&s->pt, &s->l->sched, &s->tcp);
    derr_t e = E_OK;
    stream_i *t;
    if(kind == 1) e = duv_tls_wrap_client(&s->tls, ctx, dstr_from_cstr((char*)verify), &s->l->sched.iface, s->s, &t);
    else if(kind == 2) e = duv_tls_wrap_server(&s->tls, ctx, &s->l->sched.iface, s->s, dstr_from_cstrn((char*)pre, npre, false), &t);
    const char *n = ename(e);
    DROP_VAR(&e);
    if(n){ s->s->data = s; return n; }
    if(kind) s->s = t;
    s->s->data = s;
    return NULL;
}
bool gs_read(gs *s, void *id, char *buf, size_t n){
    rd *r = __real_calloc(1, sizeof(*r));
    r->id = id;
    if(s->s->read(s->s, &r->r, (dstr_t){ .data = buf, .size = n, .fixed_size = true }, on_read)) return true;
    __real_free(r);
    return false;
}
bool gs_write(gs *s, void *id, char **bufs, size_t *lens, int n){
    wr *w = __real_calloc(1, sizeof(*w));
    w->id = id;
    dstr_t *d = __real_calloc((size_t)n, sizeof(*d));
    for(int i = 0; i < n; i++) d[i] = (dstr_t){ .data = bufs[i], .len = lens[i], .size = lens[i], .fixed_size = true };
    bool ok = s->s->write(s->s, &w->w, d, (unsigned)n, on_write);
    memset(d, 0x5a, (size_t)n * sizeof(*d));
    __real_free(d);
    if(!ok) __real_free(w);
    return ok;
}
void gs_shutdown(gs *s){ s->s->shutdown(s->s, on_shutdown); }
void gs_cancel(gs *s){ s->s->cancel(s->s); }
void gs_await(gs *s){ stream_must_await_first(s->s, on_await); }
int gs_flags(gs *s){ return s->s->canceled + 2 * s->s->is_shutdown + 4 * s->s->eof + 8 * s->s->awaited; }
// ------------------------------------------------------------- http
static void h_closed(duv_http_t *h){
    gh *g = (gh*)h->data;
    void *u = g->user;
    memset(g, 0x5a, sizeof(*g));
    __real_free(g);
    net_http_closed(u);
}
gh *gh_new(gloop *l, void *ctx, void *user){
    gh *g = __real_calloc(1, sizeof(*g));
    g->user = user; g->h.data = g;
    derr_t e = duv_http_init(&g->h, &l->loop, &l->sched, ctx);
    if(is_error(e)) die("http_init");
    return g;
}
bool gh_close(gh *g){ return duv_http_close(&g->h, h_closed); }
static void h_hdr(duv_http_req_t *r, const http_pair_t h){ net_http_hdr(((ghreq*)r->iface.data)->user, h.key.data, h.key.len, h.value.data, h.value.len); }
static http_pairs_t *mkpairs(const char **kv, int n){
    http_pairs_t *p = __real_calloc((size_t)n + 1, sizeof(*p));
    for(int i = 0; i < n; i++){
        p[i] = http_pair(dstr_from_cstr((char*)kv[2 * i]), dstr_from_cstr((char*)kv[2 * i + 1]));
        p[i].prev = i ? &p[i - 1] : NULL;
    }
    return p;
}
ghreq *gh_req(gh *g, int method, const char *url, const char **params, const char **hdrs, const char *body, size_t nbody, const char *verify, void *user){
    ghreq *q = __real_calloc(1, sizeof(*q));
    q->user = user; q->r.iface.data = q;
    q->url = strdup(url);
    q->durl = dstr_from_cstr(q->url);
    url_t u = must_parse_url(&q->durl);
    int n = 0, np = 0;
    while(hdrs[2 * n]) n++;
    while(params[2 * np]) np++;
    q->pairs = mkpairs(hdrs, n);
    q->params = mkpairs(params, np);
    static const http_method_e M[] = {HTTP_METHOD_GET, HTTP_METHOD_HEAD, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE};
    q->s = duv_http_req_ex(&q->r, &g->h, M[method], u, np ? &q->params[np - 1] : NULL, n ? &q->pairs[n - 1] : NULL, dstr_from_cstrn((char*)body, nbody, false), h_hdr, (char*)verify);
    return q;
}
static void r_read(rstream_i *i, rstream_read_t *req, dstr_t buf){
    ghreq *q = i->data; rrd *r = (rrd*)req; void *id = r->id;
    __real_free(r);
    net_http_read(q->user, id, buf.data, buf.len);
}
bool ghr_read(ghreq *q, void *id, char *buf, size_t n){
    rrd *r = __real_calloc(1, sizeof(*r));
    r->id = id;
    if(q->s->read(q->s, &r->r, (dstr_t){ .data = buf, .size = n, .fixed_size = true }, r_read)) return true;
    __real_free(r);
    return false;
}
static void r_await(rstream_i *i, derr_t e, link_t *reads){
    ghreq *q = i->data;
    void *rs[4096];
    int nr = 0;
    link_t *l;
    while((l = link_list_pop_first(reads))){
        rrd *r = (rrd*)CONTAINER_OF(l, rstream_read_t, link);
        if(r->r.cb != r_read) die("a read of somebody else");
        rs[nr++] = r->id; __real_free(r);
    }
    const char *n = ename(e);
    DROP_VAR(&e);
    void *u = q->user;
    free(q->url); __real_free(q->pairs); __real_free(q->params);
    memset(q, 0x5a, sizeof(*q));
    __real_free(q);
    net_http_await(u, n, rs, nr);
}
void ghr_cancel(ghreq *q){ q->s->cancel(q->s); }
void ghr_await(ghreq *q){ stream_must_await_first(q->s, r_await); }
int ghr_status(ghreq *q, const char **reason, size_t *n){ *reason = q->r.reason.data; *n = q->r.reason.len; return q->r.status; }
// ------------------------------------------------------------- contexts
void *gl_client_ctx(void){
    ssl_context_t c;
    derr_t e = ssl_context_new_client_ex(&c, false, NULL, 0);
    if(is_error(e)) abort();
    return c.ctx;
}
void *gl_server_ctx(const char *chain, const char *key){
    ssl_context_t c;
    derr_t e = ssl_context_new_server_pem(&c, dstr_from_cstr((char*)chain), dstr_from_cstr((char*)key));
    if(is_error(e)){ DUMP(e); abort(); }
    return c.ctx;
}
long net_ssl, net_ssl_ctx;
SSL *__real_SSL_new(SSL_CTX *c); void __real_SSL_free(SSL *s);
SSL_CTX *__real_SSL_CTX_new(const SSL_METHOD *m); void __real_SSL_CTX_free(SSL_CTX *c);
SSL *__wrap_SSL_new(SSL_CTX *c){ SSL *s = __real_SSL_new(c); net_ssl += !!s; return s; }
void __wrap_SSL_free(SSL *s){ net_ssl -= !!s; __real_SSL_free(s); }
SSL_CTX *__wrap_SSL_CTX_new(const SSL_METHOD *m){ net_ssl_ctx++; return __real_SSL_CTX_new(m); }
void __wrap_SSL_CTX_free(SSL_CTX *c){ net_ssl_ctx -= !!c; __real_SSL_CTX_free(c); }
