// Properties of the building blocks, through the project's internal headers. A function whose signature has changed
// is skipped (the API-level properties then still cover it).
#include "libs.hpp"

typedef void (*shake_f)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
typedef void (*absorb_f)(uint64_t *, const unsigned char *, unsigned int);
typedef void (*squeeze_f)(unsigned char *, unsigned long long, uint64_t *);

static bool skip(Ctx &c, const char *what) {
    c.nontrivial = false;
    c.add("skipped: %s not available", what);
    c.hit(std::string("skipped/") + what);
    return true;
}

static Guard &G(int i) {
    static Guard *g[10];
    if (!g[i]) g[i] = new Guard(1 << 17);
    return *g[i];
}

PROP(C15) {
    Lib &l = pick_lib(s, c);
    bool big = s.chance(50);
    unsigned bits = big ? 256 : 128;
    size_t rate = big ? 136 : 168;
    const char *fn = big ? "shake256" : "shake128";
    unsigned form = s.weighted({70, 30});
    static const size_t maxl[] = {1500, 30000, 130000};
    size_t inlen = gen_len(s, maxl[s.weighted({89, 10, 1})], {rate, 8});
    Bytes in = gen_bytes(s, inlen);
    unsigned ish = (unsigned)s.draw(15), osh = (unsigned)s.draw(15);
    bool iend = s.chance(50);
    if (form == 0) {
        shake_f f = l.sym<shake_f>(fn);
        if (!f) { skip(c, fn); return; }
        size_t outlen = gen_len(s, maxl[s.weighted({89, 10, 1})], {rate, 8});
        c.add("%s in=%zu out=%zu", fn, inlen, outlen);
        c.hit(std::string(fn) + (inlen % rate == 0 ? "/in%rate=0" : inlen % rate == rate - 1 ? "/in%rate=-1" : "/in-other"));
        c.hit(outlen == 0 ? "out=0" : outlen % rate == 0 ? "out%rate=0" : "out-other");
        uint8_t *ip = G(0).place(inlen, iend, ish, 0), *op = G(1).place(outlen, true, osh, 0xC3);
        if (inlen) memcpy(ip, in.data(), inlen);
        f(op, outlen, ip, inlen);
        if (!G(1).slack_intact()) fail("%s writes outside the requested %zu bytes (input %zu)", fn, outlen, inlen);
        if (!G(0).slack_intact() || (inlen && memcmp(ip, in.data(), inlen))) fail("%s changes its input", fn);
        Bytes want = m_shake(bits, in, outlen), got(op, op + outlen);
        if (got != want) fail("%s(in %zu, out %zu): %s", fn, inlen, outlen, diffmsg(got, want).c_str());
    } else {
        absorb_f fa = l.sym<absorb_f>(big ? "shake256_absorb" : "shake128_absorb");
        squeeze_f fs = l.sym<squeeze_f>(big ? "shake256_squeezeblocks" : "shake128_squeezeblocks");
        if (!fa || !fs) { skip(c, "absorb/squeezeblocks"); return; }
        uint64_t st[25] = {0};
        uint8_t *ip = G(0).place(inlen, iend, ish, 0);
        if (inlen) memcpy(ip, in.data(), inlen);
        fa(st, ip, (unsigned)inlen);
        unsigned parts = (unsigned)s.range(1, 4);
        Bytes got;
        size_t tot = 0;
        for (unsigned i = 0; i < parts; i++) {
            size_t nb = s.draw(5);
            uint8_t *op = G(1).place(nb * rate, true, osh, 0xC3);
            fs(op, nb, st);
            if (!G(1).slack_intact()) fail("%s_squeezeblocks writes outside %zu blocks", fn, nb);
            got.insert(got.end(), op, op + nb * rate);
            tot += nb;
        }
        c.add("%s absorb in=%zu squeeze %zu blocks in %u calls", fn, inlen, tot, parts);
        c.hit(std::string(fn) + "/absorb-squeeze");
        Bytes want = m_shake(bits, in, tot * rate);
        if (got != want) fail("%s_absorb(%zu) + squeezeblocks(%zu): %s", fn, inlen, tot, diffmsg(got, want).c_str());
    }
}

PROP(C16) {
    typedef void (*x4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long,
                         const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
    typedef void (*ab4_f)(__m256i *, const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, unsigned long long);
    typedef void (*sq4_f)(unsigned char *, unsigned char *, unsigned char *, unsigned char *, unsigned long long, __m256i *);
    Lib &l = pick_lib(s, c);
    size_t rate = 168;
    size_t inlen = gen_len(s, s.chance(10) ? 20000 : 900, {rate, 8});
    Bytes in[4];
    unsigned rel = s.weighted({50, 15, 15, 20});  // independent, all equal, one differs, differ in one bit
    in[0] = gen_bytes(s, inlen);
    for (int i = 1; i < 4; i++) {
        if (rel == 0) in[i] = gen_bytes(s, inlen);
        else in[i] = in[0];
    }
    if (inlen && rel == 2) in[s.draw(3)] = gen_bytes(s, inlen);
    if (inlen && rel == 3) in[s.draw(3)][s.draw(inlen - 1)] ^= (uint8_t)(1u << s.draw(7));
    uint8_t *ip[4], *op[4];
    for (int i = 0; i < 4; i++) {
        ip[i] = G(i).place(inlen, s.chance(50), (unsigned)s.draw(15), 0);
        if (inlen) memcpy(ip[i], in[i].data(), inlen);
    }
    unsigned osh = (unsigned)s.draw(15);
    Bytes got[4];
    size_t outlen = 0;
    if (s.weighted({75, 25}) == 0) {
        x4_f f = l.sym<x4_f>("shake128_4x");
        if (!f) { skip(c, "shake128_4x"); return; }
        outlen = gen_len(s, s.chance(10) ? 20000 : 900, {rate, 8});
        for (int i = 0; i < 4; i++) op[i] = G(4 + i).place(outlen, true, osh, 0xC3);
        f(op[0], op[1], op[2], op[3], outlen, ip[0], ip[1], ip[2], ip[3], inlen);
        for (int i = 0; i < 4; i++) {
            if (!G(4 + i).slack_intact()) fail("shake128_4x writes outside the requested %zu bytes of lane %d", outlen, i);
            got[i].assign(op[i], op[i] + outlen);
        }
        c.hit("one-shot");
    } else {
        ab4_f fa = l.sym<ab4_f>("shake128_absorb4x");
        sq4_f fs = l.sym<sq4_f>("shake128_squeezeblocks4x");
        if (!fa || !fs) { skip(c, "absorb4x/squeezeblocks4x"); return; }
        alignas(32) __m256i st[25];
        memset(st, 0, sizeof st);
        fa(st, ip[0], ip[1], ip[2], ip[3], inlen);
        unsigned parts = (unsigned)s.range(1, 3);
        for (unsigned k = 0; k < parts; k++) {
            size_t nb = s.draw(3);
            for (int i = 0; i < 4; i++) op[i] = G(4 + i).place(nb * rate, true, osh, 0xC3);
            fs(op[0], op[1], op[2], op[3], nb * rate, st);
            for (int i = 0; i < 4; i++) {
                if (!G(4 + i).slack_intact()) fail("shake128_squeezeblocks4x writes outside %zu blocks of lane %d", nb, i);
                got[i].insert(got[i].end(), op[i], op[i] + nb * rate);
            }
            outlen += nb * rate;
        }
        c.hit("absorb-squeeze");
    }
    c.add("in=%zu out=%zu relation=%u", inlen, outlen, rel);
    for (int i = 0; i < 4; i++) {
        Bytes want = m_shake(128, in[i], outlen);
        if (got[i] != want) fail("lane %d (in %zu, out %zu): %s", i, inlen, outlen, diffmsg(got[i], want).c_str());
        if (inlen && memcmp(ip[i], in[i].data(), inlen)) fail("input of lane %d changed", i);
    }
}

PROP(C17) {
    typedef void (*load_f)(const uint8_t *, uint8_t *);
    typedef void (*enc_f)(const uint8_t *, const size_t, const uint8_t *, uint8_t *);
    typedef void (*free_f)(uint8_t *);
    Lib &l = pick_lib(s, c);
    bool big = s.chance(50);
    unsigned bits = big ? 256 : 128;
    std::string pre = big ? "AES256_" : "AES128_";
    load_f fl = l.sym<load_f>((pre + "load_schedule").c_str());
    enc_f fe = l.sym<enc_f>((pre + "ECB_enc_sch").c_str());
    free_f ff = l.sym<free_f>((pre + "free_schedule").c_str());
    if (!fl || !fe) { skip(c, "AES"); return; }
    size_t sl = 16 * (big ? 15 : 11);
    Bytes key = gen_bytes(s, bits / 8, &c, "key");
    uint8_t *kp = G(0).place(key.size(), true, (unsigned)s.draw(15), 0);
    memcpy(kp, key.data(), key.size());
    // the schedule is declared as a plain array by its users; 16-byte aligned as compilers lay such arrays out
    uint8_t *sched = G(1).place(sl, true, 0, 0xC3);
    fl(kp, sched);
    if (!G(1).slack_intact()) fail("%sload_schedule writes outside the schedule", pre.c_str());
    Bytes snap(sched, sched + sl);
    unsigned rounds = (unsigned)s.range(1, 3);
    for (unsigned i = 0; i < rounds; i++) {
        size_t nb = s.chance(70) ? s.draw(9) : s.draw(700);
        Bytes pt = gen_bytes(s, 16 * nb, &c, "pt"), want(16 * nb);
        m_aes_ecb(bits, key.data(), pt.data(), want.data(), 16 * nb);
        bool inplace = s.chance(40);
        uint8_t *ip = G(2).place(16 * nb, s.chance(60), (unsigned)s.draw(31), 0);
        if (nb) memcpy(ip, pt.data(), 16 * nb);
        uint8_t *op = ip;
        if (!inplace) op = G(3).place(16 * nb, true, (unsigned)s.draw(31), 0xC3);
        fe(ip, 16 * nb, sched, op);
        c.hit(std::string(pre) + (inplace ? "in-place" : "separate") + (nb == 0 ? "/empty" : ""));
        if (!G(2).slack_intact() || (!inplace && !G(3).slack_intact())) fail("%sECB writes outside %zu blocks", pre.c_str(), nb);
        if (!inplace && nb && memcmp(ip, pt.data(), 16 * nb)) fail("%sECB changes its plaintext", pre.c_str());
        if (memcmp(sched, snap.data(), sl)) fail("%sECB changes the schedule", pre.c_str());
        Bytes got(op, op + 16 * nb);
        if (got != want) fail("%sECB of %zu blocks%s: %s", pre.c_str(), nb, inplace ? " in place" : "", diffmsg(got, want).c_str());
    }
    if (memcmp(kp, key.data(), key.size())) fail("%sload_schedule changes the key", pre.c_str());
    if (ff) {
        ff(sched);
        if (!G(1).slack_intact()) fail("%sfree_schedule writes outside the schedule", pre.c_str());
        // no round key may survive: compare with the schedule's own words
        unsigned left = 0;
        for (size_t i = 0; i + 4 <= sl; i += 4) {
            uint32_t w, o;
            memcpy(&w, sched + i, 4); memcpy(&o, snap.data() + i, 4);
            if (o != 0 && w == o) left++;
        }
        if (left) fail("%sfree_schedule leaves %u schedule words in place", pre.c_str(), left);
    }
}

PROP(C18) {
    typedef void (*pack_f)(unsigned char *, const size_t, const uint16_t *, const size_t, const unsigned char);
    typedef void (*unpack_f)(uint16_t *, const size_t, const unsigned char *, const size_t, const unsigned char);
    Lib &l = pick_lib(s, c);
    pack_f fp = l.sym<pack_f>("frodo_pack");
    unpack_f fu = l.sym<unpack_f>("frodo_unpack");
    if (!fp || !fu) { skip(c, "frodo_pack/unpack"); return; }
    unsigned lsb = s.chance(50) ? (s.chance(50) ? 15 : 16) : (unsigned)s.range(1, 16);
    size_t n;
    switch (s.weighted({50, 30, 20})) {
    case 0: n = s.draw(40); break;
    case 1: { size_t t[] = {64, 5120, 7808, 10752, 8, 16}; n = t[s.draw(5)]; break; }
    default: n = s.draw(2000);
    }
    Vec16 v = gen_vec16(s, n, lsb);
    size_t exact = (n * lsb + 7) / 8, outlen = exact;
    switch (s.weighted({60, 20, 20})) {
    case 1: outlen = exact ? s.draw(exact) : 0; break;
    case 2: outlen = exact + s.range(1, 9); break;
    }
    c.add("width=%u n=%zu out=%zu", lsb, n, outlen);
    c.hit("width/" + std::to_string(lsb));
    c.hit(outlen == exact ? "exact" : outlen < exact ? "truncating" : "padding");
    uint8_t *ip = G(0).place(2 * n, true, 2 * (unsigned)s.draw(7), 0);
    if (n) memcpy(ip, v.data(), 2 * n);
    uint8_t *op = G(1).place(outlen, true, (unsigned)s.draw(15), 0xC3);
    fp(op, outlen, (const uint16_t *)ip, n, (unsigned char)lsb);
    if (!G(1).slack_intact()) fail("frodo_pack(width %u, %zu values) writes outside %zu bytes", lsb, n, outlen);
    if (n && memcmp(ip, v.data(), 2 * n)) fail("frodo_pack changes its input");
    Bytes want(outlen), got(op, op + outlen);
    m_pack_general(want.data(), outlen, v.data(), n, lsb);
    if (got != want) fail("frodo_pack(width %u, %zu values, %zu bytes): %s", lsb, n, outlen, diffmsg(got, want).c_str());
    // unpack arbitrary bytes (documented precondition: room for ceil(8*inlen/width) values), and what was packed
    bool own = s.chance(50);
    Bytes src = own ? got : gen_bytes(s, s.draw(2000));
    size_t need = (src.size() * 8 + lsb - 1) / lsb, ol = need;
    if (own && outlen == exact) ol = n;  // as the KEM does
    else if (s.chance(20)) ol = need + s.range(1, 5);
    uint8_t *bp = G(2).place(src.size(), true, (unsigned)s.draw(15), 0);
    if (src.size()) memcpy(bp, src.data(), src.size());
    uint16_t *up = (uint16_t *)G(3).place(2 * ol, true, 2 * (unsigned)s.draw(7), 0xC3);
    fu(up, ol, bp, src.size(), (unsigned char)lsb);
    if (!G(3).slack_intact()) fail("frodo_unpack(width %u, %zu bytes) writes outside %zu values", lsb, src.size(), ol);
    Vec16 uw(ol);
    m_unpack_general(uw.data(), ol, src.data(), src.size(), lsb);
    for (size_t i = 0; i < ol; i++)
        if (up[i] != uw[i]) fail("frodo_unpack(width %u, %zu bytes): value %zu is %u, expected %u", lsb, src.size(), i, up[i], uw[i]);
    if (own && outlen == exact)
        for (size_t i = 0; i < n; i++)
            if (up[i] != (v[i] & ((1u << lsb) - 1))) fail("unpack(pack(v)) changes value %zu (width %u)", i, lsb);
    // what the KEM ships: packed values re-packed are unchanged (KEM lengths)
}

PROP(C19i) {
    typedef void (*ed_f)(uint16_t *, const uint16_t *);
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    ed_f fe = l.sym<ed_f>("frodo_key_encode"), fd = l.sym<ed_f>("frodo_key_decode");
    if (!fe || !fd) { skip(c, "frodo_key_encode/decode"); return; }
    Bytes mu = gen_bytes(s, p.nss, &c, "mu");
    uint8_t *mp = G(0).place(p.nss, true, 2 * (unsigned)s.draw(7), 0);
    memcpy(mp, mu.data(), p.nss);
    uint16_t *K = (uint16_t *)G(1).place(128, true, 2 * (unsigned)s.draw(7), 0xC3);
    fe(K, (const uint16_t *)mp);
    if (!G(1).slack_intact()) fail("frodo_key_encode writes outside the matrix");
    Vec16 want = m_encode(p, mu), in(64);
    for (int i = 0; i < 64; i++)
        if (((K[i] ^ want[i]) & p.mask()) != 0) fail("frodo_key_encode: entry %d is %u, specification %u", i, K[i], want[i]);
    // decode encode(mu) + e with structured e
    int h = (int)(p.q() >> (p.B + 1));
    unsigned mode = s.weighted({30, 30, 40});
    Rng r(s.seed());
    bool inside = true;
    for (int i = 0; i < 64; i++) {
        int e;
        if (mode == 0) e = -h + (int)r.below(2 * (uint64_t)h);
        else if (mode == 1) { int t[] = {-h - 1, -h, -h + 1, h - 1, h, h + 1, 0, -1, 1}; e = t[r.below(9)]; }
        else e = (int)r.below(65536);
        if (!(e >= -h && e < h)) inside = false;
        in[i] = (uint16_t)(want[i] + e);
    }
    uint16_t *ip = (uint16_t *)G(2).place(128, true, 2 * (unsigned)s.draw(7), 0);
    memcpy(ip, in.data(), 128);
    uint16_t *op = (uint16_t *)G(3).place(p.nss, true, 2 * (unsigned)s.draw(7), 0xC3);
    fd(op, ip);
    if (!G(3).slack_intact()) fail("frodo_key_decode writes outside the message");
    Bytes got((uint8_t *)op, (uint8_t *)op + p.nss), wd = m_decode(p, in);
    c.hit(inside ? "within-bound" : "beyond-bound");
    if (inside && got != mu) fail("frodo_key_decode loses the message under tolerated noise: %s", diffmsg(got, mu).c_str());
    if (got != wd) fail("frodo_key_decode differs from the specified rounding: %s", diffmsg(got, wd).c_str());
}

// All 16-bit values at once: finite space enumerated, in shuffled order and at random lengths.
PROP(C20i) {
    typedef void (*samp_f)(uint16_t *, const size_t);
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    samp_f f = l.sym<samp_f>("frodo_sample_n");
    if (!f) { skip(c, "frodo_sample_n"); return; }
    if (s.weighted({30, 70}) == 0) {
        Vec16 v(65536);
        for (unsigned i = 0; i < 65536; i++) v[i] = (uint16_t)i;
        Rng r(s.seed());
        for (unsigned i = 65535; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
        Vec16 in(v);
        f(v.data(), v.size());
        std::map<int, unsigned> cnt;
        for (size_t i = 0; i < v.size(); i++) {
            cnt[(int16_t)v[i]]++;
            if (v[i] != m_sample(p, in[i])) fail("16-bit value %u sampled as %d, specification %d", in[i], (int16_t)v[i], (int16_t)m_sample(p, in[i]));
        }
        for (size_t e = 0; e < p.chi.size(); e++)
            for (int sg = -1; sg <= 1; sg += 2) {
                if (e == 0 && sg < 0) continue;
                if (cnt[sg * (int)e] != p.chi[e]) fail("%u of 65536 values give %d, specification %u", cnt[sg * (int)e], sg * (int)e, p.chi[e]);
            }
        c.add("all 65536 values, shuffled");
        c.hit("exhaustive/" + std::to_string(p.n));
    } else {
        size_t n = s.chance(50) ? s.draw(70) : s.draw(11000);
        Vec16 in(n);
        Rng r(s.seed());
        unsigned T = p.chi[0] / 2 - 1;
        std::vector<unsigned> edges{0, 1, 65535, 65534};
        for (size_t z = 0; z < p.chi.size(); z++) { for (int d = -2; d <= 5; d++) edges.push_back((2 * T + d) & 65535); if (z + 1 < p.chi.size()) T += p.chi[z + 1]; }
        for (auto &x : in) x = r.below(2) ? (uint16_t)edges[r.below(edges.size())] : (uint16_t)r.next();
        uint16_t *vp = (uint16_t *)G(0).place(2 * n, true, 2 * (unsigned)s.draw(15), 0);
        if (n) memcpy(vp, in.data(), 2 * n);
        f(vp, n);
        if (!G(0).slack_intact()) fail("frodo_sample_n(%zu) writes outside the vector", n);
        for (size_t i = 0; i < n; i++)
            if (vp[i] != m_sample(p, in[i])) fail("position %zu of %zu: 16-bit value %u sampled as %d, specification %d", i, n, in[i], (int16_t)vp[i], (int16_t)m_sample(p, in[i]));
        c.add("n=%zu edges", n);
        c.hit("edges");
    }
}

namespace {
struct A64 {  // 64-byte aligned vector
    uint16_t *p; size_t n;
    explicit A64(const Vec16 &v) : n(v.size()) { p = (uint16_t *)aligned_alloc(64, (2 * n + 63) / 64 * 64 + 64); memcpy(p, v.data(), 2 * n); }
    explicit A64(size_t k) : n(k) { p = (uint16_t *)aligned_alloc(64, (2 * n + 63) / 64 * 64 + 64); memset(p, 0xC3, 2 * n + 64 <= (2 * n + 63) / 64 * 64 + 64 ? 2 * n + 64 : 2 * n); }
    ~A64() { free(p); }
    A64(const A64 &) = delete;
};
}
PROP(C21i) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    size_t n8 = 8 * (size_t)p.n;
    unsigned op = s.weighted({25, 25, 25, 25});
    Bytes seedA = gen_bytes(s, 16);
    auto cmp = [&](const uint16_t *got, const Vec16 &want, const char *what) {
        for (size_t i = 0; i < want.size(); i++)
            if (((got[i] ^ want[i]) & p.mask()) != 0) fail("%s: entry %zu is %u, exact result %u (mod q)", what, i, got[i] & p.mask(), want[i] & p.mask());
    };
    if (op == 0) {
        auto f = l.sym<int (*)(uint16_t *, const uint16_t *, const uint16_t *, const uint8_t *)>("frodo_mul_add_as_plus_e");
        if (!f) { skip(c, "frodo_mul_add_as_plus_e"); return; }
        Vec16 S = gen_vec16(s, n8, p.D), E = gen_vec16(s, n8, p.D);
        A64 s1(S), e1(E), o(n8);
        f(o.p, s1.p, e1.p, seedA.data());
        cmp(o.p, m_AS(p, m_genA(p, l.g, seedA.data()), S.data(), E.data()), "A*S+E");
        c.hit("A*S+E");
    } else if (op == 1) {
        auto f = l.sym<int (*)(uint16_t *, const uint16_t *, uint16_t *, const uint8_t *)>("frodo_mul_add_sa_plus_e");
        if (!f) { skip(c, "frodo_mul_add_sa_plus_e"); return; }
        Vec16 S = gen_vec16(s, n8, p.D), E = gen_vec16(s, n8, p.D);
        A64 s1(S), e1(E), o(n8);
        f(o.p, s1.p, e1.p, seedA.data());
        cmp(o.p, m_SA(p, m_genA(p, l.g, seedA.data()), S.data(), E.data()), "S'*A+E'");
        c.hit("S'*A+E'");
    } else if (op == 2) {
        auto f = l.sym<void (*)(uint16_t *, const uint16_t *, const uint16_t *, const uint16_t *)>("frodo_mul_add_sb_plus_e");
        if (!f) { skip(c, "frodo_mul_add_sb_plus_e"); return; }
        Vec16 B = gen_vec16(s, n8, p.D), S = gen_vec16(s, n8, p.D), E = gen_vec16(s, 64, p.D);
        A64 b1(B), s1(S), e1(E), o((size_t)64);
        f(o.p, b1.p, s1.p, e1.p);
        cmp(o.p, m_SB(p, S.data(), B.data(), E.data()), "S'*B+E''");
        c.hit("S'*B+E''");
    } else {
        auto f = l.sym<void (*)(uint16_t *, const uint16_t *, const uint16_t *)>("frodo_mul_bs");
        if (!f) { skip(c, "frodo_mul_bs"); return; }
        Vec16 B = gen_vec16(s, n8, p.D), S = gen_vec16(s, n8, p.D);
        A64 b1(B), s1(S), o((size_t)64);
        f(o.p, b1.p, s1.p);
        cmp(o.p, m_BS(p, B.data(), S.data()), "B'*S");
        c.hit("B'*S");
    }
    c.add("op=%u seedA=%s", op, hex(seedA).c_str());
}
