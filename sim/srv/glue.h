#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// each runs one server process until it ends; 0: no error
int glue_kvpsend(const char *sync, const char **peers, int npeers, const char *sock, const char *lock);
int glue_dns(const char *sync, const char *dns, const char **peers, int npeers, size_t buckets);
// the database, as the simulator has it
// snapshot of all challenges, sorted by subdomain
void *sim_db_snapshot(void);                       // null: the query failed
int sim_db_next(void *snap, const char **sub, size_t *sublen, const char **ch, size_t *chlen); // 1: a row; 0: end; -1: failed
void sim_db_done(void *snap);
int sim_db_get(const char *uuid, size_t n, const char **sub, size_t *sublen, const char **ch, size_t *chlen); // -1 failed; bit 0: known; bit 1: has a challenge
void sim_random(unsigned char *b, size_t n);
void sim_ready(const char *what);
void sim_log_init(void);
#ifdef __cplusplus
}
#endif
