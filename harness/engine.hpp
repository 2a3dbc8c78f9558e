// Choice-sequence engine: every random decision of a generated case is one recorded integer (0 = simplest).
// A replay is the list of integers; shrinking deletes and lowers them.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;
typedef std::vector<uint16_t> Vec16;

static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
    void fill(void *p, size_t n) {
        uint8_t *b = (uint8_t *)p;
        while (n >= 8) { uint64_t v = next(); memcpy(b, &v, 8); b += 8; n -= 8; }
        if (n) { uint64_t v = next(); memcpy(b, &v, n); }
    }
};

struct Fail {
    std::string msg;
};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// The choices of the current case live in a shared mapping so that a crash does not lose them.
struct Shared {
    uint64_t case_index;
    uint64_t nchoices;
    uint64_t state;  // 0 idle, 1 running, 2 hang
    uint64_t choices[1 << 16];
};
extern Shared *g_shared;

struct Src {
    bool replay = false;
    std::vector<uint64_t> in;
    size_t pos = 0, redraw = SIZE_MAX;
    uint64_t index = 0;
    Rng rng{0};
    std::vector<uint64_t> rec;

    void push(uint64_t v) {
        rec.push_back(v);
        if (g_shared && rec.size() <= sizeof(g_shared->choices) / 8) {
            g_shared->choices[rec.size() - 1] = v;
            g_shared->nchoices = rec.size();
        }
    }
    template <class F> uint64_t decide(uint64_t max, F gen) {
        uint64_t v;
        if (replay) v = pos < in.size() ? in[pos++] : 0;
        else if (pos < in.size() && pos != redraw) v = in[pos++];  // a mutation of an earlier case
        else { pos++; v = gen(); }
        if (v > max) v = max;
        push(v);
        return v;
    }
    uint64_t draw(uint64_t max) {  // uniform in 0..max
        return decide(max, [&] { return max == UINT64_MAX ? rng.next() : rng.below(max + 1); });
    }
    uint64_t turn(uint64_t div, uint64_t max) {  // 0..max one after another, each for div consecutive cases
        return decide(max, [&] { return index / div % (max + 1); });
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool chance(unsigned pct) {  // true with the given percentage
        return decide(1, [&] { return rng.below(100) < pct ? 1 : 0; });
    }
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0;
        for (unsigned x : w) tot += x;
        return (unsigned)decide(w.size() - 1, [&] {
            uint64_t r = rng.below(tot);
            uint64_t i = 0;
            for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
            return (uint64_t)0;
        });
    }
    uint64_t seed() { return draw(UINT64_MAX); }
};

struct Ctx {
    std::string note;                       // what the case was, for samples and failures
    bool nontrivial = true;
    std::map<std::string, uint64_t> *cls;   // class histogram
    std::map<std::string, std::string> opt; // key=value options of the job
    void hit(const std::string &c) { if (cls) (*cls)[c]++; }
    void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    long geti(const char *k, long d) const {
        auto it = opt.find(k);
        return it == opt.end() ? d : atol(it->second.c_str());
    }
};

std::string hex(const uint8_t *p, size_t n, size_t max = 16);
static inline std::string hex(const Bytes &b, size_t max = 16) { return hex(b.data(), b.size(), max); }
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);

// comparison constants seen by instrumented builds (empty otherwise)
struct DictEntry { uint64_t value; unsigned size; };
bool dict_update();  // true if the last case reached a comparison, or an outcome of one, for the first time
const std::vector<DictEntry> &dict();

// generators
uint8_t pool_byte(Src &s);
Bytes gen_bytes(Src &s, size_t n, Ctx *c = nullptr, const char *what = nullptr);
size_t gen_len(Src &s, size_t max, std::initializer_list<size_t> rates);
Vec16 gen_vec16(Src &s, size_t n, unsigned lgq);

typedef void (*PropFn)(Ctx &, Src &);
struct PropReg {
    PropReg(const char *name, PropFn f);
};
#define PROP(name)                                     \
    static void prop_##name(Ctx &c, Src &s);           \
    static PropReg reg_##name(#name, prop_##name);     \
    static void prop_##name(Ctx &c, Src &s)
