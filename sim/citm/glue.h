/* C API over citm_t, so that the models can be C++ */
#pragma once
#include "../common/glstream.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct gl_citm gl_citm;
typedef struct gl_conn gl_conn;
typedef struct gl_connect gl_connect;

void gl_process_init(void);
gl_citm *gl_citm_new(gl_sched *sched, const char *root);
void gl_citm_cancel(gl_citm *c);
void gl_citm_free(gl_citm *c);
bool gl_citm_idle(gl_citm *c);      /* no objects left */
/* a mail client connected to the citm */
gl_conn *gl_accept(gl_citm *c);
gl_stream *gl_conn_stream(gl_conn *c);
bool gl_conn_freed(gl_conn *c);
/* upcalls, implemented by the simulator */
void sim_connect_requested(gl_connect *cn);
void sim_conn_freed(gl_conn *c);
/* answers */
gl_conn *gl_connect_ok(gl_connect *cn);
void gl_connect_fail(gl_connect *cn, int how);
bool gl_connect_canceled(gl_connect *cn);
#ifdef __cplusplus
}
#endif
