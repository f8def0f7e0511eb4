#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "server/dns/libdns.h"
#include <string.h>
#include <stdlib.h>
#include <systemd/sd-daemon.h>
#include "glue.h"
#define printf(...) sim_ready("dns")
#define fflush(x) ((void)0)
#define main dns_unused_main
#define print_help dns_print_help
#include "server/dns/main.c"
#undef main
int sd_notify(int unset, const char *state){ return 0; }
int sd_listen_fds(int unset){ return 0; }

static derr_t go(const char *sync, const char *dns, const char **peers, int npeers, size_t buckets){
    derr_t e = E_OK;
    struct sockaddr_storage ss[MAX_PEERS];
    LIST_VAR(sockaddr_t, list, MAX_PEERS);
    for(int i = 0; i < npeers; i++){
        dstr_t p = dstr_from_cstr((char*)peers[i]);
        PROP(&e, on_peer(&list, p) );
    }
    dstr_t s1 = dstr_from_cstr((char*)sync), s2 = dstr_from_cstr((char*)dns);
    addrspec_t a, b;
    PROP(&e, parse_addrspec(&s1, &a) );
    PROP(&e, parse_addrspec(&s2, &b) );
    int u = -1, t = -1, k = -1;
    PROP(&e, dns_main(b, &u, &t, a, &k, list.data, list.len, buckets) );
    return e;
}
int glue_dns(const char *sync, const char *dns, const char **peers, int npeers, size_t buckets){
    derr_t e = go(sync, dns, peers, npeers, buckets);
    int bad = is_error(e);
    if(bad && getenv("SIM_LOG")) DUMP(e);
    DROP_VAR(&e);
    return bad;
}
void sim_log_init(void){
    if(getenv("SIM_LOG")) logger_add_fileptr(LOG_LVL_DEBUG, stderr);
}
