#pragma once
#include "common/core.h"
#include "common/simuv.h"
#include "common/mem.h"
#include "glue.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <uv.h>
using namespace core;
typedef std::string S;
static const uint64_t MS = 1000000, SEC = 1000000000;
#define CX core::cx

// server certificates
enum { CERT_GOOD, CERT_HOST, CERT_SELF, CERT_CA, CERT_EXPIRED, CERT_EARLY, CERT_WILD, CERT_PARTWILD, NCERT };
extern const char *cert_name[NCERT], *cert_err[NCERT];
struct Ctxs { void *client; void *server[NCERT]; };
extern Ctxs ctxs;

// what the callbacks of glue.h go to
struct Sink {
    virtual ~Sink(){}
    virtual void accepted(int){} virtual void connected(int){} virtual void found(const char*){}
    virtual void raw(size_t){} virtual void read(void*, char*, size_t){} virtual void written(void*){} virtual void shut(){}
    virtual void await(const char*, void**, int, void**, int){}
    virtual void http_closed(){} virtual void hdr(const S&, const S&){} virtual void http_read(void*, char*, size_t){}
    virtual void http_await(const char*, void**, int){}
};
void end_checks(const char *prop, simuv::Proc *p, const char *what);   // a process that ended left nothing

Plan gen_stream(uint64_t seed, const S &prop); void run_stream(const Plan&);
Plan gen_conn(uint64_t seed, const S &prop); void run_conn(const Plan&);
Plan gen_http(uint64_t seed, const S &prop); void run_http(const Plan&);
