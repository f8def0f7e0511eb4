#include <stdlib.h>
#include <string.h>
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "glstream.h"
void *__real_calloc(size_t, size_t); /* not counted as the code under test's */

struct gl_stream {
    stream_i iface;
    link_t reads;
    link_t writes;
    unsigned int nbuf;   // index into the first write's bufs
    size_t skip;         // bytes of that buf already taken
    stream_shutdown_cb shutdown_cb;
    bool shutdown_responded;
    stream_await_cb await_cb;
};
DEF_CONTAINER_OF(gl_stream, iface, stream_i)
typedef struct gl_stream gl_stream_t;

static gl_stream *get(stream_i *i){
    return (gl_stream*)((char*)i - offsetof(gl_stream, iface));
}

static bool gs_read(stream_i *i, stream_read_t *r, dstr_t buf, stream_read_cb cb){
    if(!stream_read_checks(i, buf)) return false;
    gl_stream *s = get(i);
    stream_read_prep(r, buf, cb);
    link_list_append(&s->reads, &r->link);
    return true;
}

static bool gs_write(
    stream_i *i, stream_write_t *w, const dstr_t bufs[], unsigned int n,
    stream_write_cb cb
){
    if(!stream_write_checks(i, bufs, n)) return false;
    gl_stream *s = get(i);
    derr_t e = E_OK;
    IF_PROP(&e, stream_write_init(w, bufs, n, cb) ){
        DUMP(e);
        DROP_VAR(&e);
        LOG_FATAL("stream_write_init failed\n");
    }
    link_list_append(&s->writes, &w->link);
    return true;
}

static void gs_shutdown(stream_i *i, stream_shutdown_cb cb){
    gl_stream *s = get(i);
    if(i->is_shutdown) return;
    i->is_shutdown = true;
    s->shutdown_cb = cb;
}

static void gs_cancel(stream_i *i){
    i->canceled = true;
}

static stream_await_cb gs_await(stream_i *i, stream_await_cb cb){
    gl_stream *s = get(i);
    if(i->awaited) return NULL;
    stream_await_cb out = s->await_cb;
    s->await_cb = cb;
    return out;
}

gl_stream *gl_stream_new(void){
    gl_stream *s = __real_calloc(1, sizeof(*s));
    if(!s) abort();
    s->iface.read = gs_read;
    s->iface.write = gs_write;
    s->iface.shutdown = gs_shutdown;
    s->iface.cancel = gs_cancel;
    s->iface.await = gs_await;
    return s;
}

void *gl_stream_iface(gl_stream *s){ return &s->iface; }

static stream_read_t *first_read(gl_stream *s){
    if(link_list_isempty(&s->reads)) return NULL;
    return CONTAINER_OF(s->reads.next, stream_read_t, link);
}
static stream_write_t *first_write(gl_stream *s){
    if(link_list_isempty(&s->writes)) return NULL;
    return CONTAINER_OF(s->writes.next, stream_write_t, link);
}

size_t gl_want_read(gl_stream *s){
    stream_read_t *r = first_read(s);
    return (r && !s->iface.awaited && !s->iface.canceled) ? r->buf.size : 0;
}

void gl_feed(gl_stream *s, const char *p, size_t n){
    stream_read_t *r = first_read(s);
    if(!r || n == 0 || n > r->buf.size) abort();
    link_remove(&r->link);
    memcpy(r->buf.data, p, n);
    r->buf.len = n;
    r->cb(&s->iface, r, r->buf);
}

void gl_feed_eof(gl_stream *s){
    link_t *link;
    s->iface.eof = true;
    while((link = link_list_pop_first(&s->reads))){
        stream_read_t *r = CONTAINER_OF(link, stream_read_t, link);
        r->buf.len = 0;
        r->cb(&s->iface, r, r->buf);
    }
}

size_t gl_want_write(gl_stream *s){
    stream_write_t *w = first_write(s);
    if(!w || s->iface.awaited || s->iface.canceled) return 0;
    dstr_t *bufs = get_bufs_ptr(w);
    size_t n = 0;
    for(unsigned int i = s->nbuf; i < w->nbufs; i++) n += bufs[i].len;
    return n - s->skip;
}

size_t gl_take_write(gl_stream *s, char *out, size_t max){
    stream_write_t *w = first_write(s);
    if(!w) abort();
    dstr_t *bufs = get_bufs_ptr(w);
    size_t n = 0;
    while(s->nbuf < w->nbufs){
        size_t left = bufs[s->nbuf].len - s->skip;
        size_t k = left < max - n ? left : max - n;
        memcpy(out + n, bufs[s->nbuf].data + s->skip, k);
        n += k;
        if(k < left){ s->skip += k; return n; }
        s->nbuf++;
        s->skip = 0;
    }
    s->nbuf = 0;
    s->skip = 0;
    link_remove(&w->link);
    stream_write_free(w);
    w->cb(&s->iface, w);
    return n;
}

bool gl_want_shutdown(gl_stream *s){
    return s->iface.is_shutdown && !s->shutdown_responded
        && !s->iface.awaited && !s->iface.canceled;
}
void gl_do_shutdown(gl_stream *s){
    s->shutdown_responded = true;
    stream_shutdown_cb cb = s->shutdown_cb;
    s->shutdown_cb = NULL;
    if(cb) cb(&s->iface);
}
bool gl_canceled(gl_stream *s){ return s->iface.canceled; }
bool gl_awaited(gl_stream *s){ return s->iface.awaited; }
bool gl_has_await(gl_stream *s){ return s->await_cb != NULL; }
bool gl_eof(gl_stream *s){ return s->iface.eof; }
bool gl_is_shutdown(gl_stream *s){ return s->iface.is_shutdown; }
bool gl_shutdown_responded(gl_stream *s){ return s->shutdown_responded; }
static size_t count(link_t *l){
    size_t n = 0;
    for(link_t *p = l->next; p && p != l; p = p->next) n++;
    return n;
}
size_t gl_nreads(gl_stream *s){ return count(&s->reads); }
size_t gl_nwrites(gl_stream *s){ return count(&s->writes); }

void gl_finish(gl_stream *s, int how){
    derr_t e = E_OK;
    switch(how){
        case GL_OK: break;
        case GL_CANCELED: e.type = E_CANCELED; break;
        case GL_RESET: TRACE_ORIG(&e, E_UV_ECONNRESET, "sim: reset"); break;
        case GL_PIPE: TRACE_ORIG(&e, E_UV_EPIPE, "sim: broken pipe"); break;
        case GL_CONN: TRACE_ORIG(&e, E_CONN, "sim: conn failed"); break;
        case GL_TIMEDOUT: TRACE_ORIG(&e, E_UV_ETIMEDOUT, "sim: timed out"); break;
        default: abort();
    }
    link_t reads = {0};
    link_t writes = {0};
    link_list_append_list(&reads, &s->reads);
    // unfinished writes give back their bufs here; the code under test only
    // ever counts them
    link_t *link;
    while((link = link_list_pop_first(&s->writes))){
        stream_write_t *w = CONTAINER_OF(link, stream_write_t, link);
        stream_write_free(w);
        link_list_append(&writes, &w->link);
    }
    s->iface.awaited = true;
    stream_await_cb cb = s->await_cb;
    s->await_cb = NULL;
    if(cb){
        cb(&s->iface, e, &reads, &writes);
    }else{
        DROP_VAR(&e);
    }
}

struct gl_sched {
    scheduler_i iface;
    link_t scheduled;
};

static void gs_schedule(scheduler_i *i, schedulable_t *sable){
    gl_sched *s = (gl_sched*)((char*)i - offsetof(gl_sched, iface));
    // as duv_scheduler_t: already scheduled means keep the place in the queue
    if(!link_list_isempty(&sable->link)) return;
    link_list_append(&s->scheduled, &sable->link);
}

gl_sched *gl_sched_new(void){
    gl_sched *s = __real_calloc(1, sizeof(*s));
    if(!s) abort();
    s->iface.schedule = gs_schedule;
    return s;
}
void *gl_sched_iface(gl_sched *s){ return &s->iface; }
bool gl_sched_pending(gl_sched *s){ return !link_list_isempty(&s->scheduled); }
long gl_sched_run(gl_sched *s, long cap){
    long n = 0;
    link_t *link;
    while((link = link_list_pop_first(&s->scheduled))){
        if(++n > cap) return -1;
        schedulable_t *sable = CONTAINER_OF(link, schedulable_t, link);
        sable->cb(sable);
    }
    return n;
}

void gl_log_open(void *file, int level){
    logger_clear_outputs();
    if(level < 0) return;
    derr_t e = logger_add_fileptr((log_level_t)level, file);
    DROP_VAR(&e);
    auto_log_flush(true);
}
