/* The code under test, as C++ sees it: no header of the repository is needed. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void net_process_init(void);
/* one process' event loop */
typedef struct gloop gloop;
gloop *gl_open(void *user);
int gl_listen(gloop *l, int i, const char *ip, int port);   /* i < 4 */
int gl_run(gloop *l);             /* until all is closed; 0: cleanly */
void gl_unkeep(gloop *l);         /* let gl_run() end */
void net_accepted(void *user, int i);   /* somebody is waiting: gs_accept() */
/* streams */
typedef struct gs gs;
gs *gs_dial(gloop *l, const char *ip, int port, void *user);
gs *gs_accept(gloop *l, int i, void *user);
gs *gs_find(gloop *l, const char *node, const char *service, void *user);   /* duv_connect */
void gs_find_cancel(gs *s);
void net_found(void *user, const char *err);          /* its answer; s is freed on errors */
void net_connected(void *user, int status);           /* s is freed on errors */
/* what runs on it: 0 passthru, 1 tls client, 2 tls server */
const char *gs_start(gs *s, int kind, void *ssl_ctx, const char *verify, const char *preinput, size_t npre);
bool gs_read(gs *s, void *id, char *buf, size_t n);
bool gs_write(gs *s, void *id, char **bufs, size_t *lens, int n);
void gs_shutdown(gs *s);
void gs_cancel(gs *s);
void gs_await(gs *s);
int gs_flags(gs *s);              /* 1 canceled 2 is_shutdown 4 eof 8 awaited */
void gs_raw_read(gs *s, char *buf, size_t n);         /* before gs_start: one read of the plain stream */
void net_raw(void *user, size_t n);                   /* n 0: it is over */
void net_read(void *user, void *id, char *buf, size_t n);
void net_write(void *user, void *id);
void net_shutdown(void *user);
void net_await(void *user, const char *err, void **reads, int nreads, void **writes, int nwrites);  /* s is freed */
/* http */
typedef struct gh gh;
typedef struct ghreq ghreq;
gh *gh_new(gloop *l, void *ssl_ctx, void *user);
bool gh_close(gh *h);
void net_http_closed(void *user);
ghreq *gh_req(gh *h, int method, const char *url, const char **params, const char **hdrs, const char *body, size_t nbody, const char *verify, void *user);
bool ghr_read(ghreq *r, void *id, char *buf, size_t n);
void ghr_cancel(ghreq *r);
void ghr_await(ghreq *r);
int ghr_status(ghreq *r, const char **reason, size_t *n);
void net_http_hdr(void *user, const char *k, size_t nk, const char *v, size_t nv);
void net_http_read(void *user, void *id, char *buf, size_t n);
void net_http_await(void *user, const char *err, void **reads, int nreads);     /* r is freed */
/* contexts, as the programs make them */
void *gl_client_ctx(void);
void *gl_server_ctx(const char *chain, const char *key);
extern long net_ssl, net_ssl_ctx;     /* live objects */
#ifdef __cplusplus
}
#endif
