#include <stdlib.h>
#include <string.h>
#include "libcitm/libcitm.h"
#include "glue.h"
void *__real_calloc(size_t, size_t);

struct gl_conn {
    citm_conn_t iface;
    gl_stream *stream;
    bool freed;
};
struct gl_connect {
    citm_connect_i iface;
    citm_conn_cb cb;
    void *data;
    bool canceled;
    bool done;
};
struct gl_citm {
    citm_t citm;
    citm_io_i io;
    char *root;
};

void gl_process_init(void){
    derr_t e = ssl_library_init();
    if(is_error(e)) abort();
}

static void conn_free(citm_conn_t *i){
    gl_conn *c = (gl_conn*)i;
    if(c->freed) LOG_FATAL("sim: conn freed twice\n");
    if(!i->stream->awaited) LOG_FATAL("sim: conn freed before await\n");
    c->freed = true;
    sim_conn_freed(c);
}

static gl_conn *conn_new(void){
    gl_conn *c = __real_calloc(1, sizeof(*c));
    if(!c) abort();
    c->stream = gl_stream_new();
    c->iface.stream = gl_stream_iface(c->stream);
    c->iface.security = IMAP_SEC_INSECURE;
    c->iface.verify_name = DSTR_LIT("sim");
    c->iface.free = conn_free;
    return c;
}

static void connect_cancel(citm_connect_i *i){
    gl_connect *cn = (gl_connect*)i;
    if(cn->done) LOG_FATAL("sim: connect canceled after its callback\n");
    cn->canceled = true;
}

static derr_t io_connect(
    citm_io_i *io, citm_conn_cb cb, void *data, citm_connect_i **out
){
    derr_t e = E_OK;
    (void)io;
    gl_connect *cn = __real_calloc(1, sizeof(*cn));
    if(!cn) abort();
    cn->iface.cancel = connect_cancel;
    cn->cb = cb;
    cn->data = data;
    *out = &cn->iface;
    sim_connect_requested(cn);
    return e;
}

gl_citm *gl_citm_new(gl_sched *sched, const char *root){
    gl_citm *g = __real_calloc(1, sizeof(*g));
    if(!g) abort();
    g->io.connect_imap = io_connect;
    g->root = strdup(root);
    derr_t e = citm_init(
        &g->citm, &g->io, (scheduler_i*)gl_sched_iface(sched), SBS(g->root)
    );
    if(is_error(e)) abort();
    return g;
}
void gl_citm_cancel(gl_citm *g){ citm_cancel(&g->citm); }
void gl_citm_free(gl_citm *g){ citm_free(&g->citm); free(g->root); free(g); }
static bool empty(hashmap_t *h){
    hashmap_trav_t trav;
    return hashmap_iter(&trav, h) == NULL;
}
bool gl_citm_idle(gl_citm *g){
    citm_t *c = &g->citm;
    return link_list_isempty(&c->io_pairs) && link_list_isempty(&c->anons)
        && link_list_isempty(&c->closing.conns)
        && link_list_isempty(&c->closing.clients)
        && link_list_isempty(&c->closing.servers)
        && empty(&c->preusers) && empty(&c->users) && empty(&c->holds);
}
gl_conn *gl_accept(gl_citm *g){
    gl_conn *c = conn_new();
    citm_on_imap_connection(&g->citm, &c->iface);
    return c;
}
gl_stream *gl_conn_stream(gl_conn *c){ return c->stream; }
bool gl_conn_freed(gl_conn *c){ return c->freed; }
gl_conn *gl_connect_ok(gl_connect *cn){
    if(cn->done) abort();
    cn->done = true;
    gl_conn *c = conn_new();
    derr_t e = E_OK;
    cn->cb(cn->data, &c->iface, e);
    return c;
}
void gl_connect_fail(gl_connect *cn, int how){
    if(cn->done) abort();
    cn->done = true;
    derr_t e = E_OK;
    if(how == GL_CANCELED){
        e.type = E_CANCELED;
    }else{
        TRACE_ORIG(&e, E_CONN, "sim: connect failed");
    }
    cn->cb(cn->data, NULL, e);
}
bool gl_connect_canceled(gl_connect *cn){ return cn->canceled; }
