#include "engine.hpp"
#include <cstdarg>

Shared *g_shared = nullptr;

void fail(const char *fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{buf};
}

void Ctx::add(const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (!note.empty()) note += " ";
    note += buf;
}

std::string hex(const uint8_t *p, size_t n, size_t max) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n && i < max; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > max) r += "..(" + std::to_string(n) + "B)";
    return r;
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return mix64(h);
}

// A byte worth trying: from the comparison dictionary, else an edge value.
uint8_t pool_byte(Src &s) {
    return (uint8_t)s.decide(255, [&]() -> uint64_t {
        static const uint8_t edge[] = {0, 1, 0xff, 0x80, 0x7f, 0xfe, 2, 0x10};
        auto &d = dict();
        if (!d.empty() && s.rng.below(100) < 75) {
            const DictEntry &e = d[s.rng.below(d.size())];
            uint64_t v = e.value + s.rng.below(3) - 1;
            if (s.rng.below(100) < 60) v = e.value;
            return v >> (8 * s.rng.below(e.size)) & 255;
        }
        return s.rng.below(100) < 60 ? edge[s.rng.below(sizeof edge)] : s.rng.below(256);
    });
}

Bytes gen_bytes(Src &s, size_t n, Ctx *c, const char *what) {
    // zeros, ones, repeated byte, counter, random, sparse on zero, sparse on ones, repeated block, small bytes, mixture of
    // a few pool bytes
    static const char *names[] = {"zeros", "ones", "repeat", "count", "random", "sparse0", "sparse1", "block", "small", "pool"};
    bool fed = !dict().empty();
    unsigned kind = fed ? s.weighted({4, 4, 8, 3, 36, 10, 8, 6, 6, 15}) : s.weighted({4, 4, 4, 3, 47, 11, 8, 6, 6, 7});
    Bytes b(n, 0);
    switch (kind) {
    case 0: break;
    case 1: memset(b.data(), 0xff, n); break;
    case 2: { uint8_t v = pool_byte(s); memset(b.data(), v, n); break; }
    case 3: { uint8_t v = (uint8_t)s.draw(255); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(v + i); break; }
    case 4: { Rng r(s.seed()); r.fill(b.data(), n); break; }
    case 5: case 6: {
        if (kind == 6) memset(b.data(), 0xff, n);
        unsigned k = (unsigned)s.range(1, 4);
        for (unsigned i = 0; i < k && n; i++) {
            size_t p = s.draw(n - 1);
            b[p] ^= (uint8_t)(1u << s.draw(7));
        }
        break;
    }
    case 7: {
        size_t bl = (size_t)1 << s.draw(6);
        Bytes blk(bl);
        Rng r(s.seed());
        r.fill(blk.data(), bl);
        for (size_t i = 0; i < n; i++) b[i] = blk[i % bl];
        break;
    }
    case 8: { Rng r(s.seed()); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)r.below(4); break; }
    case 9: {
        unsigned k = (unsigned)s.range(1, 3);
        uint8_t v[3];
        for (unsigned i = 0; i < k; i++) v[i] = pool_byte(s);
        Rng r(s.seed());
        for (size_t i = 0; i < n; i++) b[i] = v[r.below(k)];
        break;
    }
    }
    // a few single bytes, runs or whole dictionary words on top
    unsigned edits = n ? (fed ? s.weighted({60, 20, 12, 8}) : s.weighted({70, 16, 8, 6})) : 0;
    for (unsigned i = 0; i < edits; i++) {
        size_t p;
        switch (s.weighted({22, 22, 16, 40})) {
        case 0: p = 0; break;
        case 1: p = n - 1; break;
        case 2: p = s.draw(n < 32 ? n - 1 : 31); break;
        default: p = s.draw(n - 1); break;
        }
        switch (s.weighted({55, 20, 25})) {
        case 0: b[p] = pool_byte(s); break;
        case 1: { size_t len = (size_t)s.range(1, 8); uint8_t v = pool_byte(s); for (size_t j = 0; j < len && p + j < n; j++) b[p + j] = v; break; }
        default: {
            unsigned sz = 2;
            uint64_t v = s.decide(UINT64_MAX, [&]() -> uint64_t {
                auto &d = dict();
                if (d.empty()) return s.rng.next();
                return d[s.rng.below(d.size())].value;
            });
            while (sz < 8 && v >> (8 * sz)) sz *= 2;
            bool big = s.chance(40);
            for (unsigned j = 0; j < sz && p + j < n; j++) b[p + j] = (uint8_t)(v >> (8 * (big ? sz - 1 - j : j)));
            break;
        }
        }
    }
    if (c && what) {
        c->add("%s=%s%s:%s", what, names[kind], edits ? "+" : "", hex(b, 8).c_str());
        c->hit(std::string(what) + "/" + names[kind] + (edits ? "+" : ""));
    }
    return b;
}

size_t gen_len(Src &s, size_t max, std::initializer_list<size_t> rates) {
    // small, around a multiple of a rate, uniform
    if (s.decide(1, [&]() -> uint64_t { return !dict().empty() && s.rng.below(100) < 15; })) {  // a length the code compares with
        uint64_t v = s.decide(max, [&]() -> uint64_t {
            auto &d = dict();
            uint64_t x = d[s.rng.below(d.size())].value + s.rng.below(3) - 1;
            return x <= max ? x : s.rng.below(max + 1);
        });
        return (size_t)v;
    }
    unsigned k = s.weighted({25, 45, 30});
    if (k == 0) return s.draw(max < 40 ? max : 40);
    if (k == 1) {
        std::vector<size_t> r(rates);
        size_t rate = r[s.draw(r.size() - 1)];
        size_t m = s.draw(max / rate);
        long d = (long)s.draw(8) - 4;
        long v = (long)(m * rate) + d;
        if (v < 0) v = 0;
        if ((size_t)v > max) v = (long)max;
        return (size_t)v;
    }
    return s.draw(max);
}

Vec16 gen_vec16(Src &s, size_t n, unsigned lgq) {
    // zeros, constant extreme, random, small noise, sparse, alternating extremes, one hot
    static const uint16_t ext[] = {0, 1, 0xffff, 0x8000, 0x7fff, 0x8001, 0x00ff, 0xff00, 0x4000, 0xc000, 2, 0xfffe};
    const unsigned ne = sizeof ext / 2;
    Vec16 v(n, 0);
    (void)lgq;
    auto word = [&]() -> uint16_t {
        return (uint16_t)s.decide(0xffff, [&]() -> uint64_t {
            auto &d = dict();
            if (!d.empty() && s.rng.below(100) < 50) return d[s.rng.below(d.size())].value & 0xffff;
            return ext[s.rng.below(ne)];
        });
    };
    switch (s.weighted({3, 15, 35, 12, 10, 15, 10})) {
    case 0: break;
    case 1: { uint16_t x = word(); for (auto &e : v) e = x; break; }
    case 2: { Rng r(s.seed()); r.fill(v.data(), 2 * n); break; }
    case 3: { Rng r(s.seed()); for (auto &e : v) e = (uint16_t)((int)r.below(25) - 12); break; }
    case 4: {
        unsigned k = (unsigned)s.range(1, 6);
        for (unsigned i = 0; i < k && n; i++) { size_t p = s.draw(n - 1); v[p] = s.chance(30) ? word() : (uint16_t)s.draw(0xffff); }
        break;
    }
    case 5: { Rng r(s.seed()); for (auto &e : v) e = ext[r.below(ne)]; break; }
    case 6: if (n) { size_t p = s.draw(n - 1); v[p] = ext[1 + s.draw(ne - 2)]; } break;
    }
    return v;
}
