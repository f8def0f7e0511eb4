#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <systemd/sd-daemon.h>
#include "glue.h"
#define printf(...) sim_ready("kvpsend")
#define fflush(x) ((void)0)
#define main kvpsend_unused_main
#include "server/kvpsend/main.c"
#undef main

derr_t challenges_first(challenge_iter_t *it, MYSQL *sql){
    derr_t e = E_OK;
    *it = (challenge_iter_t){0};
    it->_stmt = sim_db_snapshot();
    if(!it->_stmt) ORIG(&e, E_OS, "the database is gone");
    PROP_GO(&e, challenges_next(it), fail);
    return e;
fail:
    sim_db_done(it->_stmt);
    it->_stmt = NULL;
    return e;
}
derr_t challenges_next(challenge_iter_t *it){
    derr_t e = E_OK;
    const char *s, *c; size_t sl, cl;
    int r = sim_db_next(it->_stmt, &s, &sl, &c, &cl);
    it->ok = false;
    if(r < 0) ORIG(&e, E_OS, "the database went away");
    if(!r) return e;
    DSTR_WRAP_ARRAY(it->subdomain, it->_subdomainbuf);
    DSTR_WRAP_ARRAY(it->challenge, it->_challengebuf);
    dstr_t ss = dstr_from_cstrn((char*)s, sl, false), cc = dstr_from_cstrn((char*)c, cl, false);
    PROP(&e, dstr_append(&it->subdomain, &ss) );
    PROP(&e, dstr_append(&it->challenge, &cc) );
    it->ok = true;
    return e;
}
void challenges_free(challenge_iter_t *it){
    if(it->_stmt) sim_db_done(it->_stmt);
    it->_stmt = NULL;
}
derr_t get_installation_challenge(
    MYSQL *sql, const dstr_t inst_uuid, dstr_t *subdomain, bool *subdomain_ok, dstr_t *challenge, bool *challenge_ok
){
    derr_t e = E_OK;
    *subdomain_ok = *challenge_ok = false;
    const char *s, *c; size_t sl, cl;
    int r = sim_db_get(inst_uuid.data, inst_uuid.len, &s, &sl, &c, &cl);
    if(r < 0) ORIG(&e, E_OS, "the database is gone");
    if(r & 1){
        dstr_t ss = dstr_from_cstrn((char*)s, sl, false);
        PROP(&e, dstr_append(subdomain, &ss) );
        *subdomain_ok = true;
    }
    if(r & 2){
        dstr_t cc = dstr_from_cstrn((char*)c, cl, false);
        PROP(&e, dstr_append(challenge, &cc) );
        *challenge_ok = true;
    }
    return e;
}
derr_t __wrap_urandom_bytes(dstr_t *out, size_t count){
    derr_t e = E_OK;
    unsigned char b[256];
    if(count > sizeof(b)) ORIG(&e, E_INTERNAL, "too much");
    sim_random(b, count);
    dstr_t d = dstr_from_cstrn((char*)b, count, false);
    PROP(&e, dstr_append(out, &d) );
    return e;
}
static derr_t go(const char *sync, const char **peers, int npeers, const char *sock, const char *lock){
    derr_t e = E_OK;
    LIST_VAR(sockaddr_t, list, MAX_PEERS);
    for(int i = 0; i < npeers; i++){
        dstr_t p = dstr_from_cstr((char*)peers[i]);
        PROP(&e, on_peer(&list, p) );
    }
    dstr_t s1 = dstr_from_cstr((char*)sync);
    addrspec_t a;
    PROP(&e, parse_addrspec(&s1, &a) );
    uv_kvpsend_t uv_k = {0};
    PROP(&e, uv_kvpsend_init(&uv_k, NULL, list.data, list.len) );
    PROP_GO(&e, uv_kvpsend_run(&uv_k, SBS(sock), SBS(lock), a), cu);
cu:
    uv_kvpsend_free(&uv_k);
    return e;
}
int glue_kvpsend(const char *sync, const char **peers, int npeers, const char *sock, const char *lock){
    derr_t e = go(sync, peers, npeers, sock, lock);
    int bad = is_error(e);
    if(bad && getenv("SIM_LOG")) DUMP(e);
    DROP_VAR(&e);
    return bad;
}

// named by the program's main() only, which does not run here
derr_t dmysql_library_init(void){ derr_t e = E_OK; ORIG(&e, E_INTERNAL, "unused"); }
derr_t dmysql_init(MYSQL *sql){ derr_t e = E_OK; ORIG(&e, E_INTERNAL, "unused"); }
derr_t sql_connect_unix(MYSQL *sql, const dstr_t *user, const dstr_t *pass, const dstr_t *sock){ derr_t e = E_OK; ORIG(&e, E_INTERNAL, "unused"); }
void mysql_close(MYSQL *sql){ }
void mysql_server_end(void){ }
