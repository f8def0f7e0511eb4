// Allocation seam: counts what the code under test holds, and can refuse.
#include "mem.h"
#include <cstdlib>
#include <cstring>
#include <unordered_map>
extern "C" {
void __sanitizer_print_stack_trace(void);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void*, size_t);
void __real_free(void*);
}
namespace mem {
struct Rec { size_t n; void *site; uint64_t seq; const void *owner; };
const void *owner = nullptr;
static std::unordered_map<void*, Rec> *live = nullptr;
static bool on = false;
static uint64_t seq = 0;
uint64_t calls = 0, failed = 0;
static int64_t countdown = -1;
void start(){ if(!live) live = new std::unordered_map<void*, Rec>; live->clear(); on = true; seq = 0; calls = 0; countdown = -1; }
void stop(){ on = false; }
size_t live_count(){ return live ? live->size() : 0; }
size_t live_count(const void *o){
    size_t n = 0;
    if(live) for(auto &kv : *live) n += kv.second.owner == o;
    return n;
}
void drop(const void *o){
    if(!live) return;
    for(auto it = live->begin(); it != live->end();){
        if(it->second.owner != o){ ++it; continue; }
        __real_free(it->first);
        it = live->erase(it);
    }
}
static std::string report_(bool all, const void *o);
std::string report(){ return report_(true, nullptr); }
std::string report(const void *o){ return report_(false, o); }
static std::string report_(bool all, const void *o){
    // oldest leak first
    if(!live || live->empty()) return "";
    size_t count = 0;
    const std::pair<void* const, Rec> *best = nullptr;
    size_t bytes = 0;
    for(auto &kv : *live){
        if(!all && kv.second.owner != o) continue;
        bytes += kv.second.n; count++;
        if(!best || kv.second.seq < best->second.seq) best = &kv;
    }
    if(!best) return "";
    char buf[256];
    snprintf(buf, sizeof(buf), "%zu blocks, %zu bytes; oldest is #%llu (%zu bytes) from %p",
        count, bytes, (unsigned long long)best->second.seq, best->second.n, best->second.site);
    return buf;
}
void fail_at(int64_t n){ countdown = n; }
static bool refuse(){
    calls++;
    if(countdown > 0 && --countdown == 0){ failed++; countdown = -1; return true; }
    return false;
}
static void add(void *p, size_t n, void *site){
    if(p){ bool was = on; on = false;
        static const char *dbg = getenv("SIM_MEMSEQ");
        if(dbg && seq + 1 == strtoull(dbg, nullptr, 10)) __sanitizer_print_stack_trace();
        (*live)[p] = Rec{n, site, ++seq, owner}; on = was; }
}
static void del(void *p){ if(p && live){ bool was = on; on = false; live->erase(p); on = was; } }
}
using namespace mem;
extern "C" {
void *__wrap_malloc(size_t n){
    if(!on) return __real_malloc(n);
    if(refuse()) return nullptr;
    void *p = __real_malloc(n);
    add(p, n, __builtin_return_address(0));
    return p;
}
void *__wrap_calloc(size_t a, size_t b){
    if(!on) return __real_calloc(a, b);
    if(refuse()) return nullptr;
    void *p = __real_calloc(a, b);
    add(p, a * b, __builtin_return_address(0));
    return p;
}
void *__wrap_realloc(void *o, size_t n){
    if(!on){ void *p = __real_realloc(o, n); if(o && p != o && live) del(o); return p; }
    if(refuse()) return nullptr;
    void *p = __real_realloc(o, n);
    if(p){ del(o); add(p, n, __builtin_return_address(0)); }
    return p;
}
void __wrap_free(void *p){
    if(live) del(p);
    __real_free(p);
}
}
