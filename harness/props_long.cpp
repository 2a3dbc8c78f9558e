// The same building blocks at lengths far beyond what the KEM uses: counters of 16 and 32 bits overflow here.
#include "libs.hpp"
#include <sys/mman.h>

namespace {
// n bytes ending at an inaccessible page; 64 canary bytes before them
struct LongBuf {
    uint8_t *base, *p; size_t len, n;
    LongBuf(size_t n_, unsigned shift) : n(n_) {
        const size_t pg = 4096;
        len = (n + shift + 64 + pg - 1) / pg * pg + pg;
        base = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); exit(3); }
        mprotect(base + len - pg, pg, PROT_NONE);
        p = base + len - pg - n - shift;
        memset(p - 64, 0xA5, 64);
        memset(p + n, 0xA5, shift);
        sh = shift;
    }
    unsigned sh;
    ~LongBuf() { munmap(base, len); }
    LongBuf(const LongBuf &) = delete;
    bool ok() const {
        for (int i = 1; i <= 64; i++) if (p[-i] != 0xA5) return false;
        for (unsigned i = 0; i < sh; i++) if (p[n + i] != 0xA5) return false;
        return true;
    }
    void fill(uint64_t seed) { Rng r(seed); r.fill(p, n); }
    void sparse(uint64_t seed) {  // mostly untouched zero pages
        Rng r(seed);
        for (int i = 0; i < 400; i++) p[r.below(n)] = (uint8_t)r.below(256);
        static const uint64_t at[] = {0, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull};
        for (uint64_t a : at) for (int k = -3; k <= 3; k++) if (a + (uint64_t)(int64_t)k < n) p[a + (uint64_t)(int64_t)k] = (uint8_t)(r.below(255) + 1);
        for (int k = 1; k <= 8; k++) p[n - k] = (uint8_t)(r.below(255) + 1);
    }
};
}
static size_t long_len(Src &s, size_t lo_bits, size_t hi_bits, size_t unit) {
    // around a power of two of bytes, around a power of two of units, or log-uniform
    unsigned k = s.weighted({30, 40, 30});
    if (k == 2) { size_t b = s.range(lo_bits, hi_bits - 1); return ((size_t)1 << b) + s.draw(((size_t)1 << b) - 1); }
    size_t b = s.range(lo_bits, hi_bits), max = (size_t)1 << hi_bits;
    size_t base = (size_t)1 << b;
    if (k == 1) {
        base = unit << s.range(8, hi_bits - (unit > 1 ? 6 : 0));
        while (base > 2 * max && base / 2 > unit * 65536) base /= 2;
    }
    long d = (long)s.draw(2 * unit) - (long)unit;
    return (size_t)((long)base + d);
}
typedef void (*shake_f)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
typedef void (*absorb_f)(uint64_t *, const unsigned char *, unsigned int);
typedef void (*squeeze_f)(unsigned char *, unsigned long long, uint64_t *);
static bool absent(Ctx &c, const char *what) { c.nontrivial = false; c.hit(std::string("skipped/") + what); return true; }

PROP(C15L) {
    Lib &l = pick_lib(s, c);
    bool medium = c.geti("medium", 0) != 0;
    bool big = medium ? s.turn(1, 1) : s.chance(50);
    size_t rate = big ? 136 : 168;
    const char *fn = big ? "shake256" : "shake128";
    shake_f f = l.sym<shake_f>(fn);
    if (!f) { absent(c, fn); return; }
    size_t inlen, outlen;
    bool huge = c.geti("huge", 0) != 0;
    if (huge) {
        static const uint64_t b[] = {0x80000000ull, 0x100000000ull};
        inlen = b[s.draw(1)] + s.draw(2 * rate) - rate / 2;
        outlen = s.draw(600);
        if (c.geti("huge", 0) == 2) std::swap(inlen, outlen);
    } else if (medium) {  // every number of blocks in turn
        inlen = rate * s.turn(8, 600) + s.draw(rate - 1), outlen = s.draw(700);
        if (s.turn(2, 1)) std::swap(inlen, outlen);
    } else {
        bool both = s.chance(30), o = s.chance(50);
        inlen = both || !o ? long_len(s, 16, 23, rate) : s.draw(700);
        outlen = both || o ? long_len(s, 16, 23, rate) : s.draw(700);
    }
    c.add("%s in=%zu out=%zu", fn, inlen, outlen);
    c.hit(std::string(fn) + (huge ? "/huge" : inlen > 65535 ? outlen > 65535 ? "/both-long" : "/long-input" : "/long-output"));
    absorb_f fa = l.sym<absorb_f>(big ? "shake256_absorb" : "shake128_absorb");
    squeeze_f fs = l.sym<squeeze_f>(big ? "shake256_squeezeblocks" : "shake128_squeezeblocks");
    bool blocks = fa && fs && (medium ? s.turn(4, 1) : s.chance(40));
    if (blocks) {
        outlen = (outlen + rate - 1) / rate * rate;
        if (inlen > 0xffffffffull) inlen = 0xffffffffull - s.draw(2 * rate);
        c.add("in blocks");
        c.hit(std::string(fn) + "/absorb-squeeze");
    }
    LongBuf in(inlen, (unsigned)s.draw(15)), out(outlen, (unsigned)s.draw(15));
    if (inlen > (64u << 20)) in.sparse(s.seed()); else in.fill(s.seed());
    if (blocks) {
        uint64_t st[25] = {0};
        fa(st, in.p, (unsigned)inlen);
        size_t nb = outlen / rate, first = s.chance(40) ? s.draw(nb) : 0;
        if (first) fs(out.p, first, st);
        fs(out.p + first * rate, nb - first, st);
    } else f(out.p, outlen, in.p, inlen);
    if (!out.ok()) fail("%s writes outside the requested %zu bytes (input %zu)", fn, outlen, inlen);
    LongBuf want(outlen, 0);
    m_shake(big ? 256 : 128, want.p, outlen, in.p, inlen);
    if (outlen && memcmp(want.p, out.p, outlen)) {
        size_t i = 0;
        while (want.p[i] == out.p[i]) i++;
        fail("%s(in %zu, out %zu) differs from byte %zu on", fn, inlen, outlen, i);
    }
}

PROP(C16L) {
    typedef void (*x4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long,
                         const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
    typedef void (*ab4_f)(__m256i *, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
    typedef void (*sq4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, __m256i *);
    Lib &l = pick_lib(s, c);
    x4_f f = l.sym<x4_f>("shake128_4x");
    if (!f) { absent(c, "shake128_4x"); return; }
    bool medium = c.geti("medium", 0) != 0, huge = c.geti("huge", 0) != 0;
    size_t inlen, outlen;
    if (huge) { static const uint64_t b[] = {0x80000000ull, 0x100000000ull}; inlen = b[s.draw(1)] + s.draw(336) - 84; outlen = s.draw(600); }
    else if (medium) {
        inlen = 168 * s.turn(4, 600) + s.draw(167), outlen = s.draw(700);
        if (s.turn(1, 1)) std::swap(inlen, outlen);
    } else {
        bool both = s.chance(30), o = s.chance(50);
        inlen = both || !o ? long_len(s, 16, 22, 168) : s.draw(700);
        outlen = both || o ? long_len(s, 16, 22, 168) : s.draw(700);
    }
    c.add("in=%zu out=%zu", inlen, outlen);
    c.hit(huge ? "huge" : inlen > 65535 ? outlen > 65535 ? "both-long" : "long-input" : "long-output");
    ab4_f fa = l.sym<ab4_f>("shake128_absorb4x");
    sq4_f fs = l.sym<sq4_f>("shake128_squeezeblocks4x");
    bool blocks = fa && fs && (medium ? s.turn(2, 1) : s.chance(40));
    if (blocks) {
        outlen = (outlen + 167) / 168 * 168;
        if (inlen > 0xffffffffull) inlen = 0xffffffffull - s.draw(336);
        c.add("in blocks");
        c.hit("absorb-squeeze");
    }
    LongBuf i0(inlen, 0), i1(inlen, 1), i2(inlen, 2), i3(inlen, 3), o0(outlen, 0), o1(outlen, 5), o2(outlen, 2), o3(outlen, 3);
    LongBuf *in[4] = {&i0, &i1, &i2, &i3}, *out[4] = {&o0, &o1, &o2, &o3};
    for (auto *b : in) if (huge) b->sparse(s.seed()); else b->fill(s.seed());
    if (blocks) {
        alignas(32) __m256i st[25];
        memset(st, 0, sizeof st);
        fa(st, i0.p, i1.p, i2.p, i3.p, inlen);
        size_t first = s.chance(40) ? s.draw(outlen / 168) * 168 : 0;
        if (first) fs(o0.p, o1.p, o2.p, o3.p, first, st);
        fs(o0.p + first, o1.p + first, o2.p + first, o3.p + first, outlen - first, st);
    } else f(o0.p, o1.p, o2.p, o3.p, outlen, i0.p, i1.p, i2.p, i3.p, inlen);
    for (int k = 0; k < 4; k++) {
        if (!out[k]->ok()) fail("shake128_4x writes outside the requested %zu bytes of lane %d", outlen, k);
        LongBuf want(outlen, 0);
        m_shake(128, want.p, outlen, in[k]->p, inlen);
        if (outlen && memcmp(want.p, out[k]->p, outlen)) fail("lane %d (in %zu, out %zu) is wrong", k, inlen, outlen);
    }
}

PROP(C17L) {
    typedef void (*load_f)(const uint8_t *, uint8_t *);
    typedef void (*enc_f)(const uint8_t *, const size_t, const uint8_t *, uint8_t *);
    Lib &l = pick_lib(s, c);
    bool medium = c.geti("medium", 0) != 0;
    bool big = medium ? s.turn(1, 1) : s.chance(50);
    unsigned bits = big ? 256 : 128;
    std::string pre = big ? "AES256_" : "AES128_";
    load_f fl = l.sym<load_f>((pre + "load_schedule").c_str());
    enc_f fe = l.sym<enc_f>((pre + "ECB_enc_sch").c_str());
    if (!fl || !fe) { absent(c, "AES"); return; }
    Bytes key = gen_bytes(s, bits / 8, &c, "key");
    alignas(16) uint8_t sched[16 * 15];
    fl(key.data(), sched);
    bool huge = c.geti("huge", 0) != 0;
    int top = (int)c.geti("top", 20);
    size_t nb = huge ? ((size_t)1 << 28) + s.draw(20) - 8 : medium ? 1 + s.turn(2, 1099) : long_len(s, 9, (size_t)top, 1);
    size_t n = 16 * nb;
    bool inplace = huge || s.chance(40);
    c.add("%s %zu blocks%s", pre.c_str(), nb, inplace ? " in place" : "");
    c.hit(pre + (huge ? "huge" : nb > 65535 ? ">=2^16 blocks" : nb > 4095 ? ">=2^12 blocks" : ">=2^9 blocks"));
    LongBuf in(n, (unsigned)s.draw(15));
    uint64_t seed = s.seed();
    if (huge) {
        fe(in.p, n, sched, in.p);
        uint8_t z[16] = {0}, e[16];
        m_aes_ecb(bits, key.data(), z, e, 16);
        for (size_t i = 0; i < nb; i++) if (memcmp(in.p + 16 * i, e, 16)) fail("%sECB of %zu blocks: block %zu is wrong", pre.c_str(), nb, i);
        if (!in.ok()) fail("%sECB writes outside %zu blocks", pre.c_str(), nb);
        return;
    }
    in.fill(seed);
    LongBuf want(n, 0), sep(inplace ? 16 : n, 3);
    m_aes_ecb(bits, key.data(), in.p, want.p, n);
    uint8_t *o = inplace ? in.p : sep.p;
    fe(in.p, n, sched, o);
    if (!in.ok() || !sep.ok()) fail("%sECB writes outside %zu blocks", pre.c_str(), nb);
    if (memcmp(o, want.p, n)) {
        size_t i = 0;
        while (!memcmp(o + 16 * i, want.p + 16 * i, 16)) i++;
        fail("%sECB of %zu blocks%s: block %zu is wrong", pre.c_str(), nb, inplace ? " in place" : "", i);
    }
}

PROP(C18L) {
    typedef void (*pack_f)(unsigned char *, const size_t, const uint16_t *, const size_t, const unsigned char);
    typedef void (*unpack_f)(uint16_t *, const size_t, const unsigned char *, const size_t, const unsigned char);
    Lib &l = pick_lib(s, c);
    pack_f fp = l.sym<pack_f>("frodo_pack");
    unpack_f fu = l.sym<unpack_f>("frodo_unpack");
    if (!fp || !fu) { absent(c, "frodo_pack/unpack"); return; }
    unsigned lsb = (unsigned)s.range(1, 16);
    size_t n = c.geti("medium", 0) ? s.draw(9000) : s.chance(50) ? long_len(s, 12, 19, 1) : long_len(s, 12, 17, 1) * 8 / lsb;  // around powers of two of values or of bytes
    size_t exact = (n * lsb + 7) / 8, outlen = exact;
    switch (s.weighted({60, 20, 20})) {
    case 1: outlen = s.draw(exact); break;
    case 2: outlen = exact + s.range(1, 70000); break;
    }
    c.add("width=%u n=%zu out=%zu", lsb, n, outlen);
    c.hit("width/" + std::to_string(lsb));
    LongBuf in(2 * n, 2 * (unsigned)s.draw(7)), out(outlen, (unsigned)s.draw(15));
    in.fill(s.seed());
    memset(out.p, 0xC3, outlen);
    const uint16_t *v = (const uint16_t *)in.p;
    fp(out.p, outlen, v, n, (unsigned char)lsb);
    if (!out.ok() || !in.ok()) fail("frodo_pack(width %u, %zu values) writes outside %zu bytes", lsb, n, outlen);
    Bytes want(outlen), got(out.p, out.p + outlen);
    m_pack_general(want.data(), outlen, v, n, lsb);
    if (got != want) fail("frodo_pack(width %u, %zu values, %zu bytes): %s", lsb, n, outlen, diffmsg(got, want).c_str());
    size_t ol = outlen == exact ? n : (outlen * 8 + lsb - 1) / lsb;
    LongBuf up(2 * ol, 2 * (unsigned)s.draw(7));
    fu((uint16_t *)up.p, ol, out.p, outlen, (unsigned char)lsb);
    if (!up.ok()) fail("frodo_unpack(width %u, %zu bytes) writes outside %zu values", lsb, outlen, ol);
    Vec16 uw(ol);
    m_unpack_general(uw.data(), ol, out.p, outlen, lsb);
    for (size_t i = 0; i < ol; i++)
        if (((uint16_t *)up.p)[i] != uw[i]) fail("frodo_unpack(width %u, %zu bytes): value %zu is %u, expected %u", lsb, outlen, i, ((uint16_t *)up.p)[i], uw[i]);
}
