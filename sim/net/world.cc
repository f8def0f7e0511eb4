// Streams, TLS, connections and HTTP: the real libduv, libduvtls and libhttp
// over a simulated libuv and network, with OpenSSL as it is installed.
#include "world.h"
#include "common/codec.h"
#include "common/vfs.h"
#include <openssl/ssl.h>
#include <openssl/x509v3.h>

const char *cert_name[NCERT] = {"good", "wrong host", "self-signed", "unknown authority", "expired", "not yet valid", "wildcard", "partial wildcard"};
const char *cert_err[NCERT] = {nullptr, "E_HOSTNAME", "E_SELFSIGN", "E_CAUNK", "E_CERTEXP", "E_CERTNOTYET", nullptr, "E_HOSTNAME"};
Ctxs ctxs;

static S pem(X509 *x){
    BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x);
    char *d; long n = BIO_get_mem_data(b, &d); S o(d, n); BIO_free(b); return o;
}
static S pem(EVP_PKEY *k){
    BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr);
    char *d; long n = BIO_get_mem_data(b, &d); S o(d, n); BIO_free(b); return o;
}
static void ext(X509 *x, X509 *issuer, int nid, const char *v){
    X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, issuer, x, nullptr, nullptr, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
    if(!e) abort();
    X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
}
static X509 *cert(EVP_PKEY *k, const char *cn, const char *san, X509 *ca, EVP_PKEY *cak, const char *from, const char *to, bool is_ca){
    static long serial = 1;
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    ASN1_TIME_set_string(X509_getm_notBefore(x), from);
    ASN1_TIME_set_string(X509_getm_notAfter(x), to);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(ca ? ca : x));
    X509_set_pubkey(x, k);
    ext(x, ca ? ca : x, NID_basic_constraints, is_ca ? "critical,CA:TRUE" : "CA:FALSE");
    if(is_ca) ext(x, ca ? ca : x, NID_key_usage, "critical,keyCertSign,cRLSign");
    if(san) ext(x, ca ? ca : x, NID_subject_alt_name, san);
    X509_sign(x, cak, EVP_sha256());
    return x;
}
static void make_ctxs(){
    // (validity far on either side of any real clock: OpenSSL reads that one)
    const char *A = "19800101000000Z", *Z = "29990101000000Z";
    EVP_PKEY *cak = EVP_EC_gen("P-256"), *ok = EVP_EC_gen("P-256"), *k = EVP_EC_gen("P-256");
    X509 *ca = cert(cak, "sim ca", nullptr, nullptr, cak, A, Z, true);
    X509 *other = cert(ok, "other ca", nullptr, nullptr, ok, A, Z, true);
    const char *san = "DNS:good.host.test,DNS:h0.test,DNS:h1.test,DNS:h2.test";
    X509 *c[NCERT] = {
        cert(k, "good.host.test", san, ca, cak, A, Z, false),
        cert(k, "evil.test", "DNS:evil.test,DNS:good.host.test.evil.test,DNS:ood.host.test,DNS:a.good.host.test,DNS:host.test", ca, cak, A, Z, false),
        cert(k, "good.host.test", san, nullptr, k, A, Z, false),
        cert(k, "good.host.test", san, other, ok, A, Z, false),
        cert(k, "good.host.test", san, ca, cak, A, "19990101000000Z", false),
        cert(k, "good.host.test", san, ca, cak, "29000101000000Z", Z, false),
        cert(k, "wild", "DNS:*.host.test", ca, cak, A, Z, false),
        cert(k, "wild", "DNS:g*d.host.test", ca, cak, A, Z, false),
    };
    ctxs.client = gl_client_ctx();
    X509_STORE_add_cert(SSL_CTX_get_cert_store((SSL_CTX*)ctxs.client), ca);
    for(int i = 0; i < NCERT; i++) ctxs.server[i] = gl_server_ctx(pem(c[i]).c_str(), pem(k).c_str());
    for(auto x : c) X509_free(x);
    X509_free(ca); X509_free(other); EVP_PKEY_free(cak); EVP_PKEY_free(ok); EVP_PKEY_free(k);
}
extern "C" {
void net_accepted(void *u, int i){ ((Sink*)u)->accepted(i); }
void net_connected(void *u, int st){ ((Sink*)u)->connected(st); }
void net_found(void *u, const char *e){ ((Sink*)u)->found(e); }
void net_raw(void *u, size_t n){ ((Sink*)u)->raw(n); }
void net_read(void *u, void *id, char *b, size_t n){ ((Sink*)u)->read(id, b, n); }
void net_write(void *u, void *id){ ((Sink*)u)->written(id); }
void net_shutdown(void *u){ ((Sink*)u)->shut(); }
void net_await(void *u, const char *e, void **r, int nr, void **w, int nw){ ((Sink*)u)->await(e, r, nr, w, nw); }
void net_http_closed(void *u){ ((Sink*)u)->http_closed(); }
void net_http_hdr(void *u, const char *k, size_t nk, const char *v, size_t nv){ ((Sink*)u)->hdr(S(k, nk), S(v, nv)); }
void net_http_read(void *u, void *id, char *b, size_t n){ ((Sink*)u)->http_read(id, b, n); }
void net_http_await(void *u, const char *e, void **r, int n){ ((Sink*)u)->http_await(e, r, n); }
}
void end_checks(const char *prop, simuv::Proc *p, const char *what){
    size_t n = mem::live_count(p);
    if(n) CX->fail(prop, "%s left %zu allocations behind: %s", what, n, mem::report(p).c_str());
}
static Plan gen(uint64_t seed, const S &prop){
    S p = prop;
    if(p == "ALL"){ static const char *P[] = {"T01", "T02", "T03", "T04", "T05", "H01", "H02", "H03", "H04"}; p = P[mix64(seed ^ 77) % 9]; }
    if(p[0] == 'H') return gen_http(seed, p);
    if(p == "T05") return gen_conn(seed, p);
    return gen_stream(seed, p);
}
static void run(const Plan &plan){
    codec::rand_rng().reseed(plan.seed ^ 0xabcdef);
    vfs::reset(plan.seed);
    static Rng sched(1);
    sched.reseed(plan.seed ^ 0x1234);
    simuv::reset(1700000000ull * SEC, &sched);
    long ctx0 = net_ssl_ctx;
    net_ssl = 0;
    mem::start();
    int mode = (int)plan.knob("mode");
    if(mode == 0) run_stream(plan); else if(mode == 1) run_conn(plan); else run_http(plan);
    mem::stop();
    simuv::reset(0, &sched);
    if(net_ssl_ctx != ctx0 && !CX->violated) CX->fail("*", "TLS contexts are left behind");
}
static void process_init(){
    codec::install_rand();
    codec::rand_rng().reseed(4711);
    net_process_init();
    make_ctxs();
}
const Sim core::the_sim = {"net", process_init, gen, run};
