// Shared simulator frame: plans, the event trace and its hash, violations,
// coverage counters, and the command line used by the driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "rng.h"

namespace core {

// One schedule item.  Arguments are relative numbers (taken modulo whatever
// exists when the item runs) so that dropping other items keeps it meaningful.
struct Item {
    std::string kind;
    std::vector<int64_t> a;
    int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Plan {
    uint64_t seed = 0;      // seeds every scheduling choice of the run
    std::map<std::string, int64_t> knobs;
    std::vector<Item> items;
    int64_t knob(const char *n, int64_t dflt = 0) const {
        auto it = knobs.find(n);
        return it == knobs.end() ? dflt : it->second;
    }
    std::string str() const;
    bool parse(const std::string &text, std::string &err);
};

struct Result {
    bool violated = false;
    std::string prop, msg;
    uint64_t hash = 0;       // event hash of the run
    bool nontrivial = false;
    std::map<std::string, int64_t> stats;
};

struct Ctx {
    std::string prop;                // the property this run decides
    std::set<std::string> props;     // the ones this simulator can decide
    FILE *trace = nullptr;
    uint64_t hash = 1469598103934665603ull;
    uint64_t nev = 0;
    bool violated = false;
    std::string vprop, vmsg;
    std::map<std::string, int64_t> stats;
    std::map<std::string, int64_t> others; // violations of other properties
    void mix(const void *p, size_t n){
        const unsigned char *c = (const unsigned char*)p;
        for(size_t i = 0; i < n; i++){ hash ^= c[i]; hash *= 1099511628211ull; }
    }
    void mix(const std::string &s){ mix(s.data(), s.size()); mix("\0", 1); }
    // record an event: hashed always, printed when tracing
    void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // a property is broken; the run ends at its next safe point
    void fail(const char *prop, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // a listed finding is counted and the run goes on; else it is a violation
    void finding(const char *tag, const char *prop, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
    void state(uint64_t h);          // an abstract state was reached
    void count(const char *k, int64_t n = 1){ stats[k] += n; }
};
extern Ctx *cx;

// implemented by each simulator
struct Sim {
    const char *name;
    void (*process_init)();
    Plan (*gen)(uint64_t seed, const std::string &prop);
    void (*run)(const Plan &plan);   // reports through cx
};
extern const Sim the_sim;

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string &s, size_t max = 120);
inline uint64_t h64(const std::string &s){
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s){ h ^= c; h *= 1099511628211ull; }
    return h;
}
inline uint64_t mix64(uint64_t x){ uint64_t s = x; return Rng::sm(s); }
}
