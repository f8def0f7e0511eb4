// Deterministic PRNG used for every choice of a simulation (xoshiro256**).
#pragma once
#include <cstdint>
#include <cstddef>
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t &x){
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1){ reseed(seed); }
    void reseed(uint64_t seed){ for(auto &v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k){ return (x << k) | (x >> (64 - k)); }
    uint64_t next(){
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n){ return n ? next() % n : 0; }
    // uniform in [a, b]
    int64_t range(int64_t a, int64_t b){ return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den){ return below(den) < num; }
    bool pct(unsigned p){ return below(100) < p; }
};
