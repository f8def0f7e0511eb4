/* A simulated stream_i: the byte pipe between the code under test and a model
   peer.  Everything that happens on it is decided by the simulator.  C API, so
   the (C-only) repository headers never meet C++. */
#pragma once
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct gl_stream gl_stream;
/* how a stream ends */
enum { GL_OK = 0, GL_CANCELED, GL_RESET, GL_PIPE, GL_CONN, GL_TIMEDOUT };
gl_stream *gl_stream_new(void);
void *gl_stream_iface(gl_stream *s);   /* really a stream_i* */
size_t gl_want_read(gl_stream *s);     /* size of first pending read, or 0 */
void gl_feed(gl_stream *s, const char *p, size_t n);
void gl_feed_eof(gl_stream *s);        /* with no read pending, just marks */
size_t gl_want_write(gl_stream *s);    /* bytes left in first pending write */
size_t gl_take_write(gl_stream *s, char *out, size_t max);
bool gl_want_shutdown(gl_stream *s);   /* shutdown asked, cb not yet sent */
void gl_do_shutdown(gl_stream *s);
bool gl_canceled(gl_stream *s);
bool gl_awaited(gl_stream *s);
bool gl_has_await(gl_stream *s);
bool gl_eof(gl_stream *s);
bool gl_is_shutdown(gl_stream *s);
bool gl_shutdown_responded(gl_stream *s);
size_t gl_nreads(gl_stream *s);
size_t gl_nwrites(gl_stream *s);
void gl_finish(gl_stream *s, int how);
/* a scheduler with an iteration cap: <0 when the cap is hit (livelock) */
typedef struct gl_sched gl_sched;
gl_sched *gl_sched_new(void);
void *gl_sched_iface(gl_sched *s);     /* really a scheduler_i* */
long gl_sched_run(gl_sched *s, long cap);
bool gl_sched_pending(gl_sched *s);
void gl_log_open(void *file, int level); /* FILE*, 0 debug .. 3 error; -1 off */
#ifdef __cplusplus
}
#endif
