// Generators shared by the KEM properties.
#pragma once
#include "libs.hpp"
#include <algorithm>
#include <memory>

// ---------------------------------------------------------------- shared generators

static inline const KeyPair &cached_keypair(const Params &p, Gen g, const Bytes &rnd) {
    struct E { unsigned n; Gen g; Bytes r; KeyPair k; };
    static std::vector<std::unique_ptr<E>> c;
    for (auto &e : c) if (e->n == p.n && e->g == g && e->r == rnd) return e->k;
    if (c.size() > 16) c.erase(c.begin());
    c.emplace_back(new E{p.n, g, rnd, m_keypair(p, g, rnd)});
    return c.back()->k;
}

// A string of n bytes such that SHAKE(prefix || string) has two chosen bytes at a chosen place (or one, when none is found):
// values that only the hash produces are steered too.
static inline Bytes gen_hashed(Src &s, Ctx &c, unsigned shake, const Bytes &prefix, size_t n, size_t outlen, size_t part, const char *what) {
    size_t at = part * s.draw(outlen / part - 1);
    switch (s.weighted({40, 25, 35})) { case 1: at += part - 2; break; case 2: at += s.draw(part - 2); break; default: break; }
    uint8_t a = pool_byte(s), b = s.chance(40) ? a : pool_byte(s);
    uint64_t pair = s.decide(0xffff, [&]() -> uint64_t {  // two constants compared with one after the other
        auto &d = dict();
        if (d.size() < 2 || s.rng.below(100) >= 50) return (uint64_t)a << 8 | b;
        size_t i = s.rng.below(d.size() - 1);
        bool rev = s.rng.below(100) < 30;
        return (d[i + rev].value & 255) << 8 | (d[i + !rev].value & 255);
    });
    a = (uint8_t)(pair >> 8);
    b = (uint8_t)pair;
    uint64_t base = s.seed();
    Bytes in = prefix, out(outlen), best;
    in.resize(prefix.size() + n);
    unsigned left = 0;
    for (unsigned i = 0; i < 250000; i++) {
        uint64_t x = base + i;
        for (size_t k = 0; k < n; k += 8) { x = (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ULL + k; memcpy(&in[prefix.size() + k], &x, std::min<size_t>(8, n - k)); }
        m_shake(shake, out.data(), outlen, in.data(), in.size());
        if (out[at] == a && (best.empty() || out[at + 1] == b)) {
            best.assign(in.begin() + (long)prefix.size(), in.end());
            left = i;
            if (out[at + 1] == b) break;
        }
    }
    if (best.empty()) best.assign(in.begin() + (long)prefix.size(), in.end());
    c.add("%s=hash[%zu..]=%02x%02x(%u)", what, at, a, b, left);
    c.hit(std::string(what) + "/hash steered");
    return best;
}

static inline Bytes gen_mu(Src &s, Ctx &c, const Params &p, const Bytes &pk) {
    if (!s.chance(2)) return gen_bytes(s, p.nss, &c, "mu");
    return gen_hashed(s, c, p.shake, m_shake(p.shake, pk, p.nss), p.nss, 2 * p.nss, p.nss, "mu");
}

static inline Bytes gen_rnd(Src &s, Ctx &c, const Params &p) {
    // s, seedSE and z separately structured
    if (s.chance(50)) { Bytes b(p.kgrand()); Rng r(s.seed()); r.fill(b.data(), b.size()); c.add("rnd=random:%s", hex(b, 8).c_str()); return b; }
    Bytes b = gen_bytes(s, p.nss, &c, "s"), e = gen_bytes(s, p.nss, &c, "seedSE");
    Bytes z = s.chance(2) ? gen_hashed(s, c, p.shake, Bytes(), 16, 16, 16, "z") : gen_bytes(s, 16, &c, "z");
    b.insert(b.end(), e.begin(), e.end());
    b.insert(b.end(), z.begin(), z.end());
    return b;
}

// Changes a ciphertext in at least one bit.
static inline Bytes alter(Src &s, Ctx &c, const Params &p, const Bytes &ct, const Bytes *other, const char *&kind) {
    size_t n8 = 8 * (size_t)p.n;
    Vec16 B = m_unpack(ct.data(), n8, p.D), C = m_unpack(ct.data() + p.c1(), 64, p.D);
    Vec16 all(B);
    all.insert(all.end(), C.begin(), C.end());
    size_t N = all.size();
    auto repack = [&] {
        Bytes o = m_pack(all.data(), n8, p.D), o2 = m_pack(all.data() + n8, 64, p.D);
        o.insert(o.end(), o2.begin(), o2.end());
        return o;
    };
    auto xorval = [&]() -> uint16_t {
        if (s.chance(60)) return (uint16_t)(1u << s.draw(p.D - 1));
        return (uint16_t)s.range(1, p.mask());
    };
    auto coef = [&]() -> size_t {
        switch (s.weighted({30, 30, 20, 20})) {
        case 0: return n8 + s.draw(63);
        case 1: return s.draw(n8 - 1);
        case 2: return N - 1 - s.draw(7);
        default: return s.draw(15);
        }
    };
    Bytes o = ct;
    switch (s.weighted({24, 14, 14, 8, 6, 6, 6, 6, 4, 4, 4, 4})) {
    case 0: { kind = "bit"; size_t b = s.draw(8 * ct.size() - 1); o[b / 8] ^= (uint8_t)(1u << (b % 8)); c.add("bit=%zu", b); break; }
    case 1: { kind = "coef-xor"; size_t i = coef(); uint16_t x = xorval(); all[i] ^= x; o = repack(); c.add("coef=%zu^%04x", i, x); break; }
    case 2: { kind = "coef-pair-same-xor"; size_t i = coef(), j = coef(); uint16_t x = xorval(); all[i] ^= x; if (j != i) all[j] ^= x; o = repack(); c.add("coefs=%zu,%zu^%04x", i, j, x); break; }
    case 3: { kind = "coef-pair-cancel"; size_t i = coef(), j = coef(); if (i == j) j = (i + 1) % N; uint16_t x = xorval(); all[i] = (all[i] + x) & p.mask(); all[j] = (all[j] - x) & p.mask(); o = repack(); c.add("coefs=%zu+%u,%zu-%u", i, x, j, x); break; }
    case 4: { kind = "all-same-xor"; uint16_t x = xorval(); for (auto &v : all) v ^= x; o = repack(); c.add("all^%04x", x); break; }
    case 5: { kind = "c2-same-xor"; uint16_t x = xorval(); for (size_t i = n8; i < N; i++) all[i] ^= x; o = repack(); break; }
    case 6: { kind = "swap"; size_t i = coef(), j = coef(); std::swap(all[i], all[j]); o = repack(); break; }
    case 7: if (other) { kind = "mix"; bool first = s.chance(50); for (size_t i = 0; i < ct.size(); i++) if ((i < p.c1()) == first) o[i] = (*other)[i]; }
            else { kind = "mix"; o[0] ^= 1; }
            break;
    case 8: { kind = "zero-half"; bool first = s.chance(50); for (size_t i = 0; i < ct.size(); i++) if ((i < p.c1()) == first) o[i] = 0; break; }
    case 9: { kind = "many-bits"; unsigned k = (unsigned)s.range(2, 40); Rng r(s.seed()); for (unsigned i = 0; i < k; i++) { size_t b = r.below(8 * ct.size()); o[b / 8] ^= (uint8_t)(1u << (b % 8)); } break; }
    case 10: { kind = "row-xor"; size_t row = s.draw(7); uint16_t x = xorval(); for (size_t i = 0; i < p.n; i++) all[row * p.n + i] ^= x; o = repack(); break; }
    case 11: { kind = "c2-quantum"; size_t i = n8 + s.draw(63); uint16_t x = (uint16_t)((p.q() >> p.B) * s.range(1, (1u << p.B) - 1)); all[i] = (all[i] + x) & p.mask(); o = repack(); break; }
    }
    if (o == ct) o[o.size() - 1] ^= 1;
    return o;
}

// A matrix of decoding noise with entries at and around the decision boundary.
static inline std::vector<int> gen_noise(Src &s, Ctx &c, const Params &p, bool inside) {
    int h = (int)(p.q() >> (p.B + 1));
    std::vector<int> e(64, 0);
    auto edge = [&](Rng *r) -> int {
        static const int in[] = {0, 1, -1};
        (void)in;
        uint64_t k = r ? r->below(8) : s.draw(7);
        switch (k) {
        case 0: return 0;
        case 1: return h - 1;
        case 2: return -h;
        case 3: return inside ? h - 2 : h;
        case 4: return inside ? -h + 1 : -h - 1;
        case 5: return inside ? h / 2 : h + 1;
        case 6: return inside ? -(h / 2) : (int)(p.q() / 2);
        default: {
            int lo = inside ? -h : -(int)p.q() / 2, hi = inside ? h - 1 : (int)p.q() / 2 - 1;
            uint64_t span = (uint64_t)(hi - lo + 1);
            return lo + (int)(r ? r->below(span) : s.draw(span - 1));
        }
        }
    };
    switch (s.weighted({20, 30, 30, 20})) {
    case 0: { unsigned i = (unsigned)s.draw(63); e[i] = edge(nullptr); c.add("noise[%u]=%d", i, e[i]); break; }
    case 1: { int v = edge(nullptr); for (auto &x : e) x = v; c.add("noise=all %d", v); break; }
    case 2: { Rng r(s.seed()); for (auto &x : e) x = edge(&r); c.add("noise=edges"); break; }
    case 3: {  // inside everywhere except possibly one entry
        Rng r(s.seed());
        for (auto &x : e) x = -h + (int)r.below(2 * (uint64_t)h);
        unsigned i = (unsigned)s.draw(63);
        e[i] = edge(nullptr);
        c.add("noise=rnd,[%u]=%d", i, e[i]);
        break;
    }
    }
    return e;
}

struct DecCase { Bytes sk, ct; const char *kind; bool want_accept_known = false, want_accept = false; };

// A secret key (not one key generation would make) under which the ciphertext decodes with exactly the chosen noise.
static inline DecCase craft(Src &s, Ctx &c, const Params &p, Gen g, bool inside, std::vector<int> *eout = nullptr) {
    DecCase d;
    d.kind = inside ? "crafted-inside" : "crafted-edge";
    Bytes seedA = gen_bytes(s, 16, &c, "seedA"), b = gen_bytes(s, p.c1(), &c, "b"), pkh = gen_bytes(s, p.nss, &c, "pkh");
    Bytes sv = gen_bytes(s, p.nss, &c, "s"), mu = gen_bytes(s, p.nss, &c, "mu");
    std::vector<int> e = gen_noise(s, c, p, inside);
    Vec16 ST = gen_vec16(s, 8 * (size_t)p.n, p.D);
    Rng r(s.seed());
    EncOut o = m_encrypt(p, g, seedA.data(), b.data(), pkh.data(), mu);
    Vec16 enc = m_encode(p, mu), T(64);
    for (int i = 0; i < 64; i++) T[i] = (uint16_t)(o.C[i] - enc[i] - e[i]) & p.mask();
    if (!m_solve_S(p, o.Bp, T, ST, r)) c.hit("craft/no-pivot");
    d.sk = sv;
    d.sk.insert(d.sk.end(), seedA.begin(), seedA.end());
    d.sk.insert(d.sk.end(), b.begin(), b.end());
    Bytes sb = le16_bytes(ST.data(), ST.size());
    d.sk.insert(d.sk.end(), sb.begin(), sb.end());
    d.sk.insert(d.sk.end(), pkh.begin(), pkh.end());
    d.ct = o.ct;
    if (eout) *eout = e;
    return d;
}

static inline DecCase gen_dec(Src &s, Ctx &c, const Params &p, Gen g) {
    DecCase d;
    switch (s.weighted({15, 15, 20, 20, 8, 7, 15})) {
    case 0: case 1: case 5: case 6: default: {
        unsigned which = (unsigned)s.draw(3);  // valid, altered, random ciphertext, damaged key
        Bytes rnd = gen_rnd(s, c, p);
        const KeyPair &kp = cached_keypair(p, g, rnd);
        d.sk = kp.sk;
        Bytes mu = gen_mu(s, c, p, kp.pk);
        if (which == 2) { d.kind = "honest-key-random-ct"; d.ct = gen_bytes(s, p.ct(), &c, "ct"); break; }
        d.ct = m_enc(p, g, kp.pk, mu).ct;
        d.kind = "honest-valid";
        if (which == 1) {
            const char *k = "";
            d.ct = alter(s, c, p, d.ct, nullptr, k);
            d.kind = "honest-altered";
        }
        if (which == 3) {
            d.kind = "damaged-key";
            unsigned k = (unsigned)s.range(1, 3);
            for (unsigned i = 0; i < k; i++) {
                size_t lo, hi;
                switch (s.draw(4)) {
                case 0: lo = 0; hi = p.nss; break;
                case 1: lo = p.nss; hi = p.nss + 16; break;
                case 2: lo = p.nss + 16; hi = p.off_S(); break;
                case 3: lo = p.off_S(); hi = p.off_pkh(); break;
                default: lo = p.off_pkh(); hi = p.sk(); break;
                }
                size_t q = s.range(lo, hi - 1);
                d.sk[q] ^= (uint8_t)s.range(1, 255);
                c.add("sk[%zu]", q);
            }
        }
        break;
    }
    case 2: return craft(s, c, p, g, true);
    case 3: return craft(s, c, p, g, false);
    case 4: d.kind = "random"; d.sk = gen_bytes(s, p.sk(), &c, "sk"); d.ct = gen_bytes(s, p.ct(), &c, "ct"); break;
    }
    return d;
}

static inline Bytes gen_pk(Src &s, Ctx &c, const Params &p, Gen g) {
    switch (s.weighted({30, 50, 20})) {
    case 0: { Bytes rnd = gen_rnd(s, c, p); c.hit("pk/honest"); return cached_keypair(p, g, rnd).pk; }
    case 1: {
        Bytes pk = gen_bytes(s, 16, &c, "seedA"), b = gen_bytes(s, p.c1(), &c, "b");
        pk.insert(pk.end(), b.begin(), b.end());
        c.hit("pk/arbitrary");
        return pk;
    }
    default: {
        Bytes pk = gen_bytes(s, 16, &c, "seedA");
        Vec16 B = gen_vec16(s, 8 * (size_t)p.n, p.D);
        Bytes b = m_pack(B.data(), B.size(), p.D);
        pk.insert(pk.end(), b.begin(), b.end());
        c.hit("pk/extreme-B");
        return pk;
    }
    }
}

