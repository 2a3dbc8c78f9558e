// Properties of the three API functions.
#include "gens.hpp"
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <valgrind/memcheck.h>

#define CHECK_RC(o, what) do { if ((o).rc != 0) fail("%s returned %d", what, (o).rc); } while (0)

static uint64_t enum_or_draw(Src &s, Ctx &c, const char *opt, uint64_t n) {
    // enumerated by case index when the job asks for it, random otherwise
    long off = c.geti(opt, -1);
    if (off < 0) return s.draw(n - 1);
    uint64_t idx = ((uint64_t)off + (uint64_t)c.geti("case_index", 0) * (uint64_t)c.geti("stride", 1)) % n;
    return s.decide(n - 1, [&] { return idx; });
}

// ---------------------------------------------------------------- C01

PROP(C01) {
    Lib &l = pick_lib(s, c);
    Lib &le = pick_lib_like(s, c, l, "enc"), &ld = pick_lib_like(s, c, l, "dec");
    const Params &p = *l.p;
    c.hit(le.name != l.name || ld.name != l.name ? "cross-build" : "same-build");
    Bytes rnd = gen_rnd(s, c, p);
    Out kp = call_keypair(l, rnd);
    CHECK_RC(kp, "crypto_kem_keypair");
    Bytes mu;
    unsigned cand = (unsigned)s.draw(1) * (unsigned)c.geti("search", 24);
    if (cand) {  // search for a message whose decryption noise is large
        size_t n8 = 8 * (size_t)p.n;
        Vec16 ST = m_le16(Bytes(kp.b.begin() + p.off_S(), kp.b.begin() + p.off_pkh()));
        Bytes in(1, 0x5f);
        in.insert(in.end(), rnd.begin() + p.nss, rnd.begin() + 2 * p.nss);
        Vec16 r = m_le16(m_shake(p.shake, in, 4 * n8));
        Vec16 E(r.begin() + n8, r.end());
        for (auto &x : E) x = m_sample(p, x);
        Bytes pkh = m_shake(p.shake, kp.a, p.nss);
        uint64_t base = s.seed();
        int best = -1;
        for (unsigned i = 0; i < cand; i++) {
            Bytes m(p.nss);
            Rng rr(base + i);
            rr.fill(m.data(), m.size());
            Bytes g2in = pkh;
            g2in.insert(g2in.end(), m.begin(), m.end());
            Bytes g2 = m_shake(p.shake, g2in, p.nss);
            Bytes in2(1, 0x96);
            in2.insert(in2.end(), g2.begin(), g2.end());
            Vec16 v = m_le16(m_shake(p.shake, in2, 2 * (2 * n8 + 64)));
            for (auto &x : v) x = m_sample(p, x);
            int mx = 0;
            for (unsigned a = 0; a < 8; a++)
                for (unsigned b = 0; b < 8; b++) {
                    int acc = (int16_t)v[2 * n8 + a * 8 + b];
                    for (size_t j = 0; j < p.n; j++)
                        acc += (int)(int16_t)v[a * p.n + j] * (int16_t)E[j * 8 + b] - (int)(int16_t)v[n8 + a * p.n + j] * (int16_t)ST[b * p.n + j];
                    mx = std::max(mx, abs(acc));
                }
            if (mx > best) { best = mx; mu = m; }
        }
        c.add("mu=search(noise %d of %u)", best, p.q() >> (p.B + 1));
        c.hit("mu/searched");
    } else mu = gen_mu(s, c, p, kp.a);
    Out e = call_enc(le, kp.a, mu);
    CHECK_RC(e, "crypto_kem_enc");
    Out d = call_dec(ld, kp.b, e.a);
    CHECK_RC(d, "crypto_kem_dec");
    if (d.a != e.b) fail("decapsulated secret differs from the encapsulated one: %s", diffmsg(d.a, e.b).c_str());
}

// ---------------------------------------------------------------- C02, C03, C04

PROP(C02) {
    Lib &l = pick_lib(s, c);
    Bytes rnd = gen_rnd(s, c, *l.p);
    Out o = call_keypair(l, rnd);
    CHECK_RC(o, "crypto_kem_keypair");
    if (o.used != rnd.size()) fail("consumed %zu random bytes, specification %zu", o.used, rnd.size());
    KeyPair k = m_keypair(*l.p, l.g, rnd);
    if (o.a != k.pk) fail("public key: %s", diffmsg(o.a, k.pk).c_str());
    if (o.b != k.sk) fail("secret key: %s", diffmsg(o.b, k.sk).c_str());
}

PROP(C03) {
    Lib &l = pick_lib(s, c);
    Bytes pk = gen_pk(s, c, *l.p, l.g), mu = gen_mu(s, c, *l.p, pk);
    Out o = call_enc(l, pk, mu);
    CHECK_RC(o, "crypto_kem_enc");
    if (o.used != mu.size()) fail("consumed %zu random bytes, specification %zu", o.used, mu.size());
    EncOut m = m_enc(*l.p, l.g, pk, mu);
    if (o.a != m.ct) fail("ciphertext: %s", diffmsg(o.a, m.ct).c_str());
    if (o.b != m.ss) fail("shared secret: %s", diffmsg(o.b, m.ss).c_str());
}

PROP(C04) {
    Lib &l = pick_lib(s, c);
    DecCase d = gen_dec(s, c, *l.p, l.g);
    c.add("kind=%s", d.kind);
    Out o = call_dec(l, d.sk, d.ct);
    CHECK_RC(o, "crypto_kem_dec");
    DecOut m = m_dec(*l.p, l.g, d.sk, d.ct);
    c.hit(std::string(d.kind) + (m.accepted ? "/accept" : "/reject"));
    if (o.a != m.ss) fail("%s ciphertext (%s): %s", m.accepted ? "valid" : "invalid", d.kind, diffmsg(o.a, m.ss).c_str());
}

// Bulk forms: one key (so the model keeps A), very many seeds and messages. They reach conditions on hashed values.

static Bytes bulk_bytes(Src &s, size_t n) {
    Bytes b(n);
    Rng r(s.seed());
    r.fill(b.data(), n);
    return b;
}
static const KeyPair &bulk_key(Src &s, Ctx &c, const Params &p, Gen g) {
    uint64_t id = s.decide(1u << 20, [&] { return (uint64_t)c.geti("keybase", 0); });
    Bytes rnd(p.kgrand());
    Rng r(id * 0x9e37 + 11);
    r.fill(rnd.data(), rnd.size());
    return cached_keypair(p, g, rnd);
}
PROP(C01b) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    static struct { std::string lib; uint64_t id; Bytes pk, sk; unsigned left; } k;
    bool again = k.lib == l.name && k.left;
    uint64_t id = s.decide(UINT64_MAX, [&] { return again ? k.id : s.rng.next(); });
    if (k.lib != l.name || k.id != id) {
        Bytes rnd(p.kgrand());
        Rng r(id);
        r.fill(rnd.data(), rnd.size());
        Out o = call_keypair(l, rnd);
        CHECK_RC(o, "crypto_kem_keypair");
        k = {l.name, id, o.a, o.b, 8};
    } else k.left--;
    Bytes mu = bulk_bytes(s, p.nss);
    c.add("key#%llx mu=%s", (unsigned long long)id, hex(mu, 12).c_str());
    Out e = call_enc(l, k.pk, mu);
    CHECK_RC(e, "crypto_kem_enc");
    Out d = call_dec(l, k.sk, e.a);
    CHECK_RC(d, "crypto_kem_dec");
    if (d.a != e.b) fail("decapsulated secret differs from the encapsulated one: %s", diffmsg(d.a, e.b).c_str());
}
PROP(C02b) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    uint64_t id = s.decide(1u << 20, [&] { return (uint64_t)c.geti("keybase", 0); });
    Bytes rnd = bulk_bytes(s, p.kgrand());
    Rng r(id + 5);
    r.fill(&rnd[2 * p.nss], 16);
    c.add("rnd=%s z#%llu", hex(rnd, 12).c_str(), (unsigned long long)id);
    Out o = call_keypair(l, rnd);
    CHECK_RC(o, "crypto_kem_keypair");
    KeyPair k = m_keypair(p, l.g, rnd);
    if (o.a != k.pk) fail("public key: %s", diffmsg(o.a, k.pk).c_str());
    if (o.b != k.sk) fail("secret key: %s", diffmsg(o.b, k.sk).c_str());
}
PROP(C03b) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    const KeyPair &k = bulk_key(s, c, p, l.g);
    Bytes mu = bulk_bytes(s, p.nss);
    c.add("mu=%s", hex(mu, 12).c_str());
    Out o = call_enc(l, k.pk, mu);
    CHECK_RC(o, "crypto_kem_enc");
    EncOut m = m_enc(p, l.g, k.pk, mu);
    if (o.a != m.ct) fail("ciphertext: %s", diffmsg(o.a, m.ct).c_str());
    if (o.b != m.ss) fail("shared secret: %s", diffmsg(o.b, m.ss).c_str());
}
PROP(C04b) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    const KeyPair &k = bulk_key(s, c, p, l.g);
    if (s.chance(70)) {
        Bytes mu = bulk_bytes(s, p.nss);
        c.add("mu=%s", hex(mu, 12).c_str());
        EncOut m = m_enc(p, l.g, k.pk, mu);
        Out o = call_dec(l, k.sk, m.ct);
        CHECK_RC(o, "crypto_kem_dec");
        c.hit("bulk/valid");
        if (o.a != m.ss && o.a != m_dec(p, l.g, k.sk, m.ct).ss) fail("valid ciphertext: %s", diffmsg(o.a, m.ss).c_str());
    } else {
        Bytes ct = bulk_bytes(s, p.ct());  // as good as never valid
        c.add("ct=%s", hex(ct, 12).c_str());
        Out o = call_dec(l, k.sk, ct);
        CHECK_RC(o, "crypto_kem_dec");
        c.hit("bulk/random");
        Bytes want = m_reject(p, k.sk, ct);
        if (o.a != want && o.a != m_dec(p, l.g, k.sk, ct).ss) fail("random ciphertext: %s", diffmsg(o.a, want).c_str());
    }
}

// ---------------------------------------------------------------- C05

PROP(C05) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    // a few honest keys and ciphertexts per lib, made by the library itself, reused over cases
    struct KC { std::string lib; uint64_t id; Bytes sk; Bytes ct[2]; Bytes ss; };
    static std::vector<std::unique_ptr<KC>> cache;
    uint64_t nk = (uint64_t)c.geti("keys", 4);
    uint64_t id = s.draw(nk - 1) + 1000 * (uint64_t)s.decide(1u << 20, [&] { return (uint64_t)c.geti("keybase", 0); });
    KC *k = nullptr;
    for (auto &e : cache) if (e->lib == l.name && e->id == id) k = e.get();
    if (!k) {
        k = new KC;
        cache.emplace_back(k);
        k->lib = l.name; k->id = id;
        Rng r(id * 77 + 5);
        Bytes rnd(p.kgrand()), mu(p.nss);
        r.fill(rnd.data(), rnd.size());
        Out kp = call_keypair(l, rnd);
        CHECK_RC(kp, "crypto_kem_keypair");
        k->sk = kp.b;
        for (int i = 0; i < 2; i++) {
            r.fill(mu.data(), mu.size());
            Out e = call_enc(l, kp.a, mu);
            CHECK_RC(e, "crypto_kem_enc");
            k->ct[i] = e.a;
            if (i == 0) k->ss = e.b;
        }
    }
    Bytes ct;
    const char *kind = "";
    long mode = c.geti("enum", -1);
    size_t N = 8 * (size_t)p.n + 64;
    if (mode >= 0) {  // every coefficient in turn, any difference
        size_t i = enum_or_draw(s, c, "enum", N);
        uint16_t x = s.chance(50) ? (uint16_t)(1u << s.draw(p.D - 1)) : (uint16_t)s.range(1, p.mask());
        size_t n8 = 8 * (size_t)p.n;
        Vec16 B = m_unpack(k->ct[0].data(), n8, p.D), C = m_unpack(k->ct[0].data() + p.c1(), 64, p.D);
        if (i < n8) B[i] ^= x; else C[i - n8] ^= x;
        ct = m_pack(B.data(), n8, p.D);
        Bytes c2 = m_pack(C.data(), 64, p.D);
        ct.insert(ct.end(), c2.begin(), c2.end());
        kind = "enumerated-coef";
        c.add("coef=%zu^%04x", i, x);
    } else if (c.geti("edges", -1) >= 0) {  // every bit of C, and of the first and last entries of the rows of B'
        const size_t n8 = 8 * (size_t)p.n, per = 8;
        size_t i = enum_or_draw(s, c, "edges", (64 + 8 * 2 * per) * p.D), bit = i % p.D, e = i / p.D;
        size_t coef = e < 64 ? n8 + e : (e - 64) / (2 * per) * p.n + ((e - 64) % (2 * per) < per ? (e - 64) % per : p.n - 1 - (e - 64) % per);
        size_t pos = coef * p.D + p.D - 1 - bit;
        ct = k->ct[0];
        ct[pos / 8] ^= (uint8_t)(0x80 >> (pos % 8));
        kind = "edge-bit";
        c.add("coef=%zu bit=%zu", coef, bit);
    } else if (c.geti("enumbits", -1) >= 0) {
        size_t b = enum_or_draw(s, c, "enumbits", 8 * p.ct());
        ct = k->ct[0];
        ct[b / 8] ^= (uint8_t)(0x80 >> (b % 8));
        kind = "enumerated-bit";
        c.add("bit=%zu", b);
    } else ct = alter(s, c, p, k->ct[0], &k->ct[1], kind);
    c.add("kind=%s", kind);
    c.hit(kind);
    Out d = call_dec(l, k->sk, ct);
    CHECK_RC(d, "crypto_kem_dec");
    Bytes want = m_reject(p, k->sk, ct);
    if (d.a == k->ss) fail("altered ciphertext (%s) decapsulates to the original secret", kind);
    if (d.a != want) fail("altered ciphertext (%s) does not give SHAKE(ct||s): %s", kind, diffmsg(d.a, want).c_str());
}

// ---------------------------------------------------------------- C06

PROP(C06) {
    if (g_libs.size() < 2) fail("needs several builds");
    const Lib &l = *g_libs[0];
    const Params &p = *l.p;
    unsigned op = s.weighted({30, 35, 35});
    std::vector<Out> outs;
    if (op == 0) {
        Bytes rnd = gen_rnd(s, c, p);
        for (Lib *x : g_libs) outs.push_back(call_keypair(*x, rnd));
    } else if (op == 1) {
        Bytes pk = gen_pk(s, c, p, l.g), mu = gen_mu(s, c, p, pk);
        for (Lib *x : g_libs) outs.push_back(call_enc(*x, pk, mu));
    } else {
        DecCase d = gen_dec(s, c, p, l.g);
        c.add("kind=%s", d.kind);
        for (Lib *x : g_libs) outs.push_back(call_dec(*x, d.sk, d.ct));
    }
    static const char *ops[] = {"keypair", "enc", "dec"};
    c.hit(ops[op]);
    c.add("op=%s builds=%zu", ops[op], g_libs.size());
    for (size_t i = 1; i < outs.size(); i++) {
        if (outs[i].rc != outs[0].rc) fail("%s: %s returned %d, %s returned %d", ops[op], g_libs[0]->name.c_str(), outs[0].rc, g_libs[i]->name.c_str(), outs[i].rc);
        if (outs[i].used != outs[0].used) fail("%s: builds consume different amounts of randomness", ops[op]);
        if (outs[i].a != outs[0].a || outs[i].b != outs[0].b)
            fail("%s: builds %s and %s disagree: %s", ops[op], g_libs[0]->name.c_str(), g_libs[i]->name.c_str(),
                 outs[i].a != outs[0].a ? diffmsg(outs[i].a, outs[0].a).c_str() : diffmsg(outs[i].b, outs[0].b).c_str());
    }
}

// ---------------------------------------------------------------- C10

namespace {
struct Bufs {
    Guard pk{21520}, sk{43088}, ct{21632}, ss{64};
};
}
static void place_desc(Src &s, bool &end, unsigned &shift) {
    end = s.chance(60);
    shift = s.chance(50) ? 0 : (unsigned)s.draw(33);
}
PROP(C10) {
    static Bufs *b = new Bufs;
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    {
        std::string dir = l.path.substr(0, l.path.rfind('/'));
        void *h = dlopen((dir + "/api" + std::to_string(l.size) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        const unsigned long long *k = h ? (const unsigned long long *)dlsym(h, "api_sizes") : nullptr;
        if (!k) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        if (k[0] != p.sk() || k[1] != p.pk() || k[2] != p.nss || k[3] != p.ct())
            fail("the API header announces sk %llu, pk %llu, ss %llu, ct %llu bytes; specified: %zu, %zu, %u, %zu", k[0], k[1], k[2], k[3], p.sk(), p.pk(), p.nss, p.ct());
        dlclose(h);
    }
    unsigned op = s.weighted({25, 35, 40});
    bool e1, e2, e3;
    unsigned h1, h2, h3;
    place_desc(s, e1, h1); place_desc(s, e2, h2); place_desc(s, e3, h3);
    uint8_t fills[2] = {0x00, 0xFF};
    Bytes o1[2], o2[2];
    // under valgrind: outputs start undefined, must end defined, and no undefined value may decide anything
    const bool vg = RUNNING_ON_VALGRIND;
    unsigned errs = VALGRIND_COUNT_ERRORS;
    auto vout = [&](uint8_t *q, size_t n) { (void)q; (void)n; if (vg) VALGRIND_MAKE_MEM_UNDEFINED(q, n); };
    auto vchk = [&](const char *what, uint8_t *q, size_t n) {
        (void)n;
        if (!vg) return;
        if (VALGRIND_COUNT_ERRORS != errs) fail("an uninitialised value is used (%s)", l.name.c_str());
        if (VALGRIND_CHECK_MEM_IS_DEFINED(q, n)) fail("%s contains uninitialised bytes", what);
    };
    auto ro = [&](Guard &g, bool on) { mprotect(g.base + 4096, g.room, on ? PROT_READ : PROT_READ | PROT_WRITE); };
    if (op == 0) {
        Bytes rnd = gen_rnd(s, c, p);
        for (int r = 0; r < 2; r++) {
            uint8_t *pk = b->pk.place(p.pk(), e1, h1, fills[r]), *sk = b->sk.place(p.sk(), e2, h2, fills[r]);
            rng_set(rnd);
            vout(pk, p.pk()); vout(sk, p.sk());
            int rc = l.f_keypair(pk, sk);
            if (rc) fail("crypto_kem_keypair returned %d", rc);
            vchk("pk", pk, p.pk()); vchk("sk", sk, p.sk());
            if (!b->pk.slack_intact()) fail("crypto_kem_keypair writes outside pk");
            if (!b->sk.slack_intact()) fail("crypto_kem_keypair writes outside sk");
            o1[r].assign(pk, pk + p.pk()); o2[r].assign(sk, sk + p.sk());
        }
        c.add("op=keypair pk@%s%u sk@%s%u", e1 ? "end-" : "start+", h1, e2 ? "end-" : "start+", h2);
    } else if (op == 1) {
        Bytes pkv = s.chance(50) ? gen_bytes(s, p.pk(), &c, "pk") : gen_pk(s, c, p, l.g), mu = gen_bytes(s, p.nss, &c, "mu");
        for (int r = 0; r < 2; r++) {
            uint8_t *pk = b->pk.place(p.pk(), e1, h1, 0), *ct = b->ct.place(p.ct(), e2, h2, fills[r]), *ss = b->ss.place(p.nss, e3, h3, fills[r]);
            memcpy(pk, pkv.data(), pkv.size());
            ro(b->pk, true);
            rng_set(mu);
            vout(ct, p.ct()); vout(ss, p.nss);
            int rc = l.f_enc(ct, ss, pk);
            ro(b->pk, false);
            if (rc) fail("crypto_kem_enc returned %d", rc);
            vchk("ct", ct, p.ct()); vchk("ss", ss, p.nss);
            if (memcmp(pk, pkv.data(), pkv.size())) fail("crypto_kem_enc changes pk");
            if (!b->ct.slack_intact()) fail("crypto_kem_enc writes outside ct");
            if (!b->ss.slack_intact()) fail("crypto_kem_enc writes outside ss");
            o1[r].assign(ct, ct + p.ct()); o2[r].assign(ss, ss + p.nss);
        }
        c.add("op=enc pk@%s%u ct@%s%u ss@%s%u", e1 ? "end-" : "start+", h1, e2 ? "end-" : "start+", h2, e3 ? "end-" : "start+", h3);
    } else {
        DecCase d;
        if (s.chance(40)) { d.kind = "random"; d.sk = gen_bytes(s, p.sk(), &c, "sk"); d.ct = gen_bytes(s, p.ct(), &c, "ct"); }
        else d = gen_dec(s, c, p, l.g);
        for (int r = 0; r < 2; r++) {
            uint8_t *sk = b->sk.place(p.sk(), e1, h1, 0), *ct = b->ct.place(p.ct(), e2, h2, 0), *ss = b->ss.place(p.nss, e3, h3, fills[r]);
            memcpy(sk, d.sk.data(), d.sk.size());
            memcpy(ct, d.ct.data(), d.ct.size());
            ro(b->sk, true); ro(b->ct, true);
            rng_set({});
            vout(ss, p.nss);
            int rc = l.f_dec(ss, ct, sk);
            ro(b->sk, false); ro(b->ct, false);
            if (rc) fail("crypto_kem_dec returned %d", rc);
            vchk("ss", ss, p.nss);
            if (memcmp(sk, d.sk.data(), d.sk.size())) fail("crypto_kem_dec changes sk");
            if (memcmp(ct, d.ct.data(), d.ct.size())) fail("crypto_kem_dec changes ct");
            if (!b->ss.slack_intact()) fail("crypto_kem_dec writes outside ss");
            o1[r].assign(ss, ss + p.nss);
        }
        c.add("op=dec kind=%s sk@%s%u ct@%s%u ss@%s%u", d.kind, e1 ? "end-" : "start+", h1, e2 ? "end-" : "start+", h2, e3 ? "end-" : "start+", h3);
    }
    c.hit(op == 0 ? "keypair" : op == 1 ? "enc" : "dec");
    if (h1 % 2 || h2 % 2 || h3 % 2) c.hit("odd-alignment");
    // an output byte that is not written keeps its fill, which differs between the two runs
    if (o1[0] != o1[1]) fail("first output not fully written or not deterministic: %s", diffmsg(o1[0], o1[1]).c_str());
    if (o2[0] != o2[1]) fail("second output not fully written or not deterministic: %s", diffmsg(o2[0], o2[1]).c_str());
}

// ---------------------------------------------------------------- C12

PROP(C12) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    Rng r(s.seed());
    auto fresh = [&](size_t n) { Bytes b(n); r.fill(b.data(), n); return b; };
    static const int codes[] = {1, -1, -2, -3, 2, 255, 256, INT32_MIN};
    unsigned steps = (unsigned)s.range(1, 5);
    Bytes pk, sk;
    {
        Out o = call_keypair(l, fresh(p.kgrand()));
        CHECK_RC(o, "crypto_kem_keypair");
        pk = o.a; sk = o.b;
    }
    for (unsigned i = 0; i < steps; i++) {
        unsigned op = (unsigned)s.draw(2);
        bool faulty = i == 0 || s.chance(60);
        static const char *ops[] = {"keypair", "enc", "dec"};
        Bytes rnd = op == 0 ? fresh(p.kgrand()) : fresh(p.nss);
        Out good;
        Bytes ct;
        if (op == 0) good = call_keypair(l, rnd);
        else if (op == 1) good = call_enc(l, pk, rnd);
        else {
            ct = call_enc(l, pk, rnd).a;
            if (s.chance(50)) ct[s.draw(ct.size() - 1)] ^= 1;
            good = call_dec(l, sk, ct);
        }
        if (good.rc) fail("%s returned %d with a working random source", ops[op], good.rc);
        if (op == 2 && good.calls) fail("crypto_kem_dec consulted the random source");
        if (!faulty) { c.hit(std::string(ops[op]) + "/working"); continue; }
        if (op != 2 && good.calls == 0) fail("%s did not use the random source", ops[op]);
        unsigned nreq = op == 2 ? 1 : good.calls;
        unsigned at = (unsigned)s.draw(nreq - 1);
        int code = codes[s.draw(7)];
        unsigned cnt = s.chance(50) ? 1000 : 1;
        size_t fillb = s.chance(50) ? s.draw(p.kgrand()) : 0;
        c.add("%s:fail@%u/%u code %d fill %zu%s;", ops[op], at, nreq, code, fillb, cnt > 1 ? " persistent" : "");
        Bytes a(std::max(p.pk(), p.ct()), 0xEE), b(p.sk(), 0xEE);
        rng_set(rnd);
        g_rng.fail_at = at; g_rng.fail_count = cnt; g_rng.fail_ret = code; g_rng.fail_fill = fillb;
        int rc = op == 0 ? l.f_keypair(a.data(), b.data()) : op == 1 ? l.f_enc(a.data(), b.data(), pk.data()) : l.f_dec(b.data(), ct.data(), sk.data());
        unsigned calls = g_rng.calls;
        c.hit(std::string(ops[op]) + "/fault@" + std::to_string(at) + (cnt > 1 ? "+" : ""));
        if (op == 2) {
            if (calls) fail("crypto_kem_dec consulted the random source");
            if (rc) fail("crypto_kem_dec returned %d", rc);
            if (memcmp(b.data(), good.a.data(), p.nss)) fail("crypto_kem_dec result depends on the random source");
        } else if (rc == 0) fail("%s returned success although request %u of the random source failed with code %d", ops[op], at, code);
        Out again = op == 0 ? call_keypair(l, rnd) : op == 1 ? call_enc(l, pk, rnd) : call_dec(l, sk, ct);
        if (again.rc || again.a != good.a || again.b != good.b) fail("%s after a failed call does not behave as before the failure", ops[op]);
    }
}

// ---------------------------------------------------------------- C13

namespace {
struct TOp { unsigned op; Bytes in1, in2; std::vector<Out> got; };
struct TArg { const Lib *l; std::vector<TOp> ops; pthread_barrier_t *bar; unsigned rounds; };
}
static Out run_op(const Lib &l, const TOp &o) {
    return o.op == 0 ? call_keypair(l, o.in1) : o.op == 1 ? call_enc(l, o.in1, o.in2) : call_dec(l, o.in1, o.in2);
}
static void *thread_main(void *v) {
    TArg *a = (TArg *)v;
    pthread_barrier_wait(a->bar);
    for (unsigned r = 0; r < a->rounds; r++)
        for (TOp &o : a->ops) {
            Out g = run_op(*a->l, o);
            if (o.got.empty() || g.rc != o.got[0].rc || g.a != o.got[0].a || g.b != o.got[0].b) o.got.push_back(g);
        }
    return nullptr;
}

PROP(C13) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    unsigned nt = (unsigned)s.range(2, 8);
    unsigned rounds = (unsigned)c.geti("rounds", 3);
    bool shared_key = s.chance(50), same_ops = s.chance(40);
    reload_lib(l);  // the threads are the first to call it
    Rng r(s.seed());
    auto fresh = [&](size_t n) { Bytes b(n); r.fill(b.data(), n); return b; };
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, nt);
    std::vector<TArg> args(nt);
    KeyPair shared = m_keypair(p, l.g, fresh(p.kgrand()));
    std::string mixs;
    for (unsigned t = 0; t < nt; t++) {
        args[t].l = &l; args[t].bar = &bar; args[t].rounds = rounds;
        unsigned nops = (unsigned)s.range(1, 3);
        KeyPair kp = shared_key ? shared : m_keypair(p, l.g, fresh(p.kgrand()));
        for (unsigned i = 0; i < nops; i++) {
            TOp o;
            o.op = same_ops && t ? args[0].ops[i % args[0].ops.size()].op : (unsigned)s.draw(2);
            if (o.op == 0) o.in1 = fresh(p.kgrand());
            else if (o.op == 1) { o.in1 = kp.pk; o.in2 = fresh(p.nss); }
            else {
                o.in1 = kp.sk;
                o.in2 = m_enc(p, l.g, kp.pk, fresh(p.nss)).ct;
                if (s.chance(40)) o.in2[r.below(o.in2.size())] ^= 4;
            }
            mixs += "ked"[o.op];
            args[t].ops.push_back(o);
        }
        mixs += '|';
    }
    c.add("threads=%u ops=%s shared_key=%d", nt, mixs.c_str(), shared_key);
    c.hit("threads/" + std::to_string(nt));
    std::vector<pthread_t> th(nt);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 48u << 20);
    for (unsigned t = 0; t < nt; t++)
        if (pthread_create(&th[t], &at, thread_main, &args[t])) { perror("pthread_create"); exit(3); }
    for (unsigned t = 0; t < nt; t++) pthread_join(th[t], nullptr);
    pthread_attr_destroy(&at);
    pthread_barrier_destroy(&bar);
    static const char *ops[] = {"keypair", "enc", "dec"};
    reload_lib(l);
    for (auto &a : args)
        for (TOp &o : a.ops) {
            Out w = run_op(l, o);
            for (Out &g : o.got)
                if (g.rc != w.rc || g.a != w.a || g.b != w.b)
                    fail("%s run concurrently gives another result than alone (%u threads): %s", ops[o.op], nt,
                         (g.a != w.a ? diffmsg(g.a, w.a) : diffmsg(g.b, w.b)).c_str());
        }
}

// ---------------------------------------------------------------- C24

namespace {
struct Held { size_t heap; unsigned fds, tasks; };
}
static unsigned entries(const char *dir) {
    unsigned n = 0;
    DIR *d = opendir(dir);
    if (!d) { perror(dir); exit(3); }
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static Held held() {
    struct mallinfo2 m = mallinfo2();
    return {m.uordblks + m.hblkhd, entries("/proc/self/fd"), entries("/proc/self/task")};
}

// A piece of history over and over, with fresh inputs each time: what the process holds after 2, 2f, 2f^2 and 2f^3
// rounds must not grow every time.
PROP(C24) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    Rng r(s.seed());
    auto fresh = [&](size_t n) { Bytes b(n); r.fill(b.data(), n); return b; };
    struct Step { unsigned op, how; };
    unsigned n = (unsigned)s.range(1, 4);
    bool newkey = s.chance(50), repeat = s.chance(25);
    std::vector<Step> h;
    std::string d = newkey ? "new key each round: " : "";
    static const char *hows[] = {"", "~", "!"};
    for (unsigned i = 0; i < n; i++) {
        Step t;
        t.op = (unsigned)s.draw(2);
        t.how = s.weighted({50, 30, 20});  // as it should be; malformed input; failing random source
        d += std::string("ked").substr(t.op, 1) + hows[t.how] + " ";
        h.push_back(t);
    }
    c.add("%s%s", d.c_str(), repeat ? "same inputs every round" : "");
    c.hit(d);
    Bytes pk(p.pk()), sk(p.sk()), ct(p.ct()), ss(p.nss), pk2(p.pk()), sk2(p.sk());
    Bytes ct2 = fresh(p.ct());
    uint64_t seed = r.next();
    Held was = {0, 0, 0};
    int heap = 0, fds = 0, tasks = 0, points = 0;
    size_t grew = 0;
    const int F = (int)c.geti("factor", 3), ROUNDS = 2 * F * F * F;
    for (int k = 0; k <= ROUNDS; k++) {
        if (repeat) r = Rng(seed);
        if (k % 8 == 0) alarm(60);
        Bytes rnd = fresh(p.kgrand());
        if (k == 0 || newkey) {
            rng_set(rnd);
            l.f_keypair(pk.data(), sk.data());
            rng_set(fresh(p.nss));
            l.f_enc(ct.data(), ss.data(), pk.data());
        }
        for (Step &t : h) {
            rng_set(fresh(p.kgrand()));
            if (t.how == 2) g_rng.fail_at = 0;
            if (t.op == 0) { l.f_keypair(pk2.data(), sk2.data()); continue; }
            Bytes &in = t.op == 1 ? pk : ct;
            size_t at = r.below(in.size());
            if (t.how == 1) in[at] ^= 0x11;
            if (t.op == 1) l.f_enc(ct2.data(), ss.data(), pk.data());
            else l.f_dec(ss.data(), ct.data(), sk.data());
            if (t.how == 1) in[at] ^= 0x11;
        }
        if (k == 2 || k == 2 * F || k == 2 * F * F || k == ROUNDS) {
            rng_set({});
            rnd = Bytes();
            Held now = held();
            if (points++) { heap += now.heap > was.heap; fds += now.fds > was.fds; tasks += now.tasks > was.tasks; grew = now.heap - was.heap; }
            was = now;
        }
    }
    if (heap == 3) fail("heap memory in use grows with the number of calls (by %zu bytes in the last %d rounds)", grew, ROUNDS - 2 * F * F);
    if (fds == 3) fail("open descriptors grow with the number of calls");
    if (tasks == 3) fail("threads are left running");
}

// ---------------------------------------------------------------- C14

// A process forked before any library call; each request is answered by a fresh child of it.
namespace {
struct Pristine {
    int to[2], from[2];
    pid_t pid;
    static bool rd(int fd, void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n) { ssize_t r = read(fd, b, n); if (r <= 0) return false; b += r; n -= r; } return true; }
    static bool wr(int fd, const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; while (n) { ssize_t r = write(fd, b, n); if (r <= 0) return false; b += r; n -= r; } return true; }
    static bool wrb(int fd, const Bytes &b) { uint64_t n = b.size(); return wr(fd, &n, 8) && wr(fd, b.data(), n); }
    static bool rdb(int fd, Bytes &b) { uint64_t n; if (!rd(fd, &n, 8)) return false; b.resize(n); return rd(fd, b.data(), n); }
    Pristine() {
        if (pipe(to) || pipe(from)) { perror("pipe"); exit(3); }
        pid = fork();
        if (pid == 0) {
            close(to[1]); close(from[0]);
            alarm(0);
            for (;;) {
                uint64_t hdr[2];
                Bytes a, b;
                if (!rd(to[0], hdr, 16) || !rdb(to[0], a) || !rdb(to[0], b)) _exit(0);
                pid_t ch = fork();
                if (ch == 0) {
                    alarm(60);
                    const Lib &l = *g_libs[hdr[0]];
                    Out o = hdr[1] == 0 ? call_keypair(l, a) : hdr[1] == 1 ? call_enc(l, a, b) : call_dec(l, a, b);
                    int64_t h[3] = {o.rc, (int64_t)o.used, (int64_t)o.calls};
                    wr(from[1], h, sizeof h);
                    wrb(from[1], o.a);
                    wrb(from[1], o.b);
                    _exit(0);
                }
                int st;
                waitpid(ch, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(1);
            }
        }
        close(to[0]); close(from[1]);
    }
    Out ask(size_t li, unsigned op, const Bytes &a, const Bytes &b) {
        uint64_t hdr[2] = {li, op};
        Out o;
        int64_t h[3];
        if (!wr(to[1], hdr, 16) || !wrb(to[1], a) || !wrb(to[1], b) || !rd(from[0], h, sizeof h) || !rdb(from[0], o.a) || !rdb(from[0], o.b))
            fail("the call fails in a fresh process (op %u)", op);
        o.rc = (int)h[0]; o.used = (size_t)h[1]; o.calls = (unsigned)h[2];
        return o;
    }
};
}
static __attribute__((noinline)) void poison_stack(uint8_t v, size_t n) {
    volatile uint8_t *b = (volatile uint8_t *)alloca(n);
    for (size_t i = 0; i < n; i += 64) b[i] = v;
    memset((void *)b, v, n);
    __asm__ volatile("" ::"r"(b) : "memory");
}
static Bytes tweak(Src &s, const Bytes &b, size_t lo, size_t hi) {
    Bytes r = b;
    switch (s.weighted({30, 25, 20, 25})) {
    case 0: { size_t i = s.range(lo, hi - 1); r[i] ^= (uint8_t)(1u << s.draw(7)); break; }      // one bit
    case 1: { size_t n = std::min<size_t>(hi - lo, 4); size_t i = hi - 1 - s.draw(n - 1); r[i] ^= (uint8_t)s.range(1, 255); break; }  // near the end
    case 2: { size_t i = s.range(lo, hi - 1), j = s.range(lo, hi - 1); std::swap(r[i], r[j]); if (r == b) r[i] ^= 1; break; }  // same multiset
    case 3: { size_t i = s.range(lo, hi - 1), j = s.range(lo, hi - 1); uint8_t x = (uint8_t)s.range(1, 255); r[i] ^= x; if (j != i) r[j] ^= x; break; }  // same XOR
    }
    return r;
}
PROP(C14) {
    static Pristine *fresh = new Pristine;
    size_t li = g_libs.size() > 1 ? s.draw(g_libs.size() - 1) : 0;
    const Lib &l = *g_libs[li];
    const Params &p = *l.p;
    c.add("lib=%s", l.name.c_str());
    c.hit("lib/" + l.name);
    Rng r(s.seed());
    auto rb = [&](size_t n) { Bytes b(n); r.fill(b.data(), n); return b; };
    // a pool of inputs that are close to one another
    std::vector<Bytes> rnds, pks, mus, sks, cts;
    rnds.push_back(rb(p.kgrand()));
    mus.push_back(rb(p.nss));
    {
        Out k = fresh->ask(li, 0, rnds[0], {});
        pks.push_back(k.a);
        sks.push_back(k.b);
        cts.push_back(fresh->ask(li, 1, k.a, mus[0]).a);
    }
    unsigned extra = (unsigned)s.range(1, 4);
    for (unsigned i = 0; i < extra; i++)
        switch (s.draw(6)) {
        case 0: rnds.push_back(tweak(s, rnds[0], 0, p.kgrand())); break;
        case 1: pks.push_back(tweak(s, pks[0], 0, 16)); break;
        case 2: pks.push_back(tweak(s, pks[0], 16, p.pk())); break;
        case 3: mus.push_back(tweak(s, mus[0], 0, p.nss)); break;
        case 4: sks.push_back(tweak(s, sks[0], 0, p.sk())); break;
        case 5: cts.push_back(tweak(s, cts[0], 0, p.ct())); break;
        default: {
            Bytes sk = sks[0];  // only s, only seedA, only S or only pkh differ
            size_t reg = s.draw(3);
            size_t lo[] = {0, p.nss, p.off_S(), p.off_pkh()}, hi[] = {p.nss, p.nss + 16u, p.off_pkh(), p.sk()};
            sks.push_back(tweak(s, sk, lo[reg], hi[reg]));
        }
        }
    struct Memo { unsigned op; const Bytes *a, *b; Out o; };
    std::vector<Memo> memo;
    unsigned nops = (unsigned)s.range(2, 14);
    std::string hist;
    static Bytes A, B;  // output buffers reused over the history
    A.resize(std::max(p.pk(), p.ct()));
    B.resize(p.sk());
    for (unsigned i = 0; i < nops; i++) {
        unsigned op = (unsigned)s.draw(2);
        const Bytes *in1, *in2;
        static const Bytes none;
        size_t x = 0, y = 0;
        if (op == 0) { x = s.draw(rnds.size() - 1); in1 = &rnds[x]; in2 = &none; }
        else if (op == 1) { x = s.draw(pks.size() - 1); y = s.draw(mus.size() - 1); in1 = &pks[x]; in2 = &mus[y]; }
        else { x = s.draw(sks.size() - 1); y = s.draw(cts.size() - 1); in1 = &sks[x]; in2 = &cts[y]; }
        char t[32];
        snprintf(t, sizeof t, "%c%zu%s", "KED"[op], x, op ? ("." + std::to_string(y)).c_str() : "");
        hist += t;
        hist += ' ';
        Out *want = nullptr;
        for (auto &m : memo) if (m.op == op && m.a == in1 && m.b == in2) want = &m.o;
        if (!want) { memo.push_back({op, in1, in2, fresh->ask(li, op, *in1, *in2)}); memo.reserve(64); want = &memo.back().o; }
        Out w = *want;
        if (s.chance(40)) {
            uint8_t v = (uint8_t)s.draw(255);
            poison_stack(v, l.opt == "ref" ? 5u << 20 : 400u << 10);
            mallopt(M_PERTURB, v);
        }
        // what the caller's own computations may have left behind: errno, rounding mode, flush-to-zero
        static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}, errs[] = {0, EINTR, ENOMEM, EIO};
        unsigned env = (unsigned)s.weighted({60, 15, 15, 10}), er = (unsigned)s.draw(3);
        rng_set(op == 0 ? *in1 : op == 1 ? *in2 : Bytes());
        fesetround(modes[env]);
        if (er & 1) _mm_setcsr(_mm_getcsr() | 0x8040);
        errno = errs[er];
        int rc = op == 0 ? l.f_keypair(A.data(), B.data()) : op == 1 ? l.f_enc(A.data(), B.data(), in1->data()) : l.f_dec(A.data(), in2->data(), in1->data());
        bool kept = fegetround() == modes[env];
        _mm_setcsr(_mm_getcsr() & ~0x8040u);
        fesetround(FE_TONEAREST);
        static const char *ops[] = {"keypair", "enc", "dec"};
        c.hit(ops[op]);
        if (!kept) fail("%s after history [%s] changes the caller's rounding mode", ops[op], hist.c_str());
        if (rc != w.rc) fail("%s returned %d after history [%s], %d in a fresh process", ops[op], rc, hist.c_str(), w.rc);
        if (g_rng.pos != w.used) fail("%s consumed %zu random bytes after history [%s], %zu in a fresh process", ops[op], g_rng.pos, hist.c_str(), w.used);
        if (memcmp(A.data(), w.a.data(), w.a.size()) || (w.b.size() && memcmp(B.data(), w.b.data(), w.b.size())))
            fail("%s after history [%s] differs from the same call in a fresh process", ops[op], hist.c_str());
    }
    c.add("history=%s", hist.c_str());
}

// One very long history: many thousand operations over a small pool, each compared with a fresh process.
PROP(C14n) {
    static Pristine *fresh = new Pristine;
    const Lib &l = *g_libs[0];
    const Params &p = *l.p;
    uint64_t nops = (uint64_t)c.geti("ops", 10000);
    unsigned heavy = (unsigned)c.geti("heavy", 3);
    Rng r(s.seed());
    auto rb = [&](size_t n) { Bytes b(n); r.fill(b.data(), n); return b; };
    struct Item { unsigned op; Bytes a, b; Out o; };
    std::vector<Item> pool;
    unsigned nk = (unsigned)s.range(1, 3);
    for (unsigned i = 0; i < nk; i++) {
        Bytes rnd = rb(p.kgrand());
        Out k = fresh->ask(0, 0, rnd, {});
        pool.push_back({0, rnd, {}, k});
        for (int j = 0; j < 2; j++) {
            Bytes mu = rb(p.nss);
            Out e = fresh->ask(0, 1, k.a, mu);
            pool.push_back({1, k.a, mu, e});
            Bytes ct = e.a;
            pool.push_back({2, k.b, ct, fresh->ask(0, 2, k.b, ct)});
            ct[r.below(ct.size())] ^= 1;
            pool.push_back({2, k.b, ct, fresh->ask(0, 2, k.b, ct)});
        }
    }
    static const char *ops[] = {"keypair", "enc", "dec"};
    std::vector<std::vector<size_t>> by(3);
    for (size_t i = 0; i < pool.size(); i++) by[pool[i].op].push_back(i);
    Bytes A(std::max(p.pk(), p.ct())), B(p.sk());
    uint64_t count[3] = {0, 0, 0};
    for (uint64_t i = 0; i < nops; i++) {
        if (i % 64 == 0) alarm(60);
        unsigned op = heavy < 3 && r.below(10) ? heavy : (unsigned)r.below(3);
        const Item &x = pool[by[op][r.below(by[op].size())]];
        rng_set(op == 0 ? x.a : op == 1 ? x.b : Bytes());
        int rc = op == 0 ? l.f_keypair(A.data(), B.data()) : op == 1 ? l.f_enc(A.data(), B.data(), x.a.data()) : l.f_dec(A.data(), x.b.data(), x.a.data());
        count[op]++;
        if (rc != x.o.rc) fail("call %llu, %s number %llu, returned %d, %d in a fresh process", (unsigned long long)i, ops[op], (unsigned long long)count[op], rc, x.o.rc);
        if (g_rng.pos != x.o.used) fail("call %llu, %s number %llu, consumed %zu random bytes, %zu in a fresh process", (unsigned long long)i, ops[op], (unsigned long long)count[op], g_rng.pos, x.o.used);
        if (memcmp(A.data(), x.o.a.data(), x.o.a.size()) || (x.o.b.size() && memcmp(B.data(), x.o.b.data(), x.o.b.size())))
            fail("call %llu, %s number %llu, differs from the same call in a fresh process", (unsigned long long)i, ops[op], (unsigned long long)count[op]);
    }
    c.add("lib=%s %llu operations over %zu calls", l.name.c_str(), (unsigned long long)nops, pool.size());
    c.hit("long history");
}

// ---------------------------------------------------------------- C19 (through the API)

PROP(C19) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    std::vector<int> e;
    bool inside = s.chance(40);
    DecCase d = craft(s, c, p, l.g, inside, &e);
    int h = (int)(p.q() >> (p.B + 1));
    bool ok = true;
    for (int x : e) if (x < -h || x >= h) ok = false;
    DecOut m = m_dec(p, l.g, d.sk, d.ct);
    c.hit(ok ? "within-bound" : "beyond-bound");
    if (m.accepted != ok) { c.nontrivial = false; return; }  // no solvable key (degenerate B'): nothing to observe
    Out o = call_dec(l, d.sk, d.ct);
    CHECK_RC(o, "crypto_kem_dec");
    if (o.a != m.ss) fail("noise %s the bound: decapsulation %s the message", ok ? "within" : "beyond", ok ? "does not recover" : "wrongly decodes");
}

// ---------------------------------------------------------------- C20 (through the API)

PROP(C20) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    Bytes rnd = gen_rnd(s, c, p);
    Out o = call_keypair(l, rnd);
    CHECK_RC(o, "crypto_kem_keypair");
    Bytes in(1, 0x5f);
    in.insert(in.end(), rnd.begin() + p.nss, rnd.begin() + 2 * p.nss);
    size_t n8 = 8 * (size_t)p.n;
    Vec16 r = m_le16(m_shake(p.shake, in, 4 * n8));
    Vec16 ST = m_le16(Bytes(o.b.begin() + p.off_S(), o.b.begin() + p.off_pkh()));
    static std::map<unsigned, std::vector<bool>> seen;
    auto &sv = seen[p.n];
    sv.resize(65536);
    for (size_t i = 0; i < n8; i++) {
        if (!sv[r[i]]) { sv[r[i]] = true; c.hit("distinct-16bit-values/" + std::to_string(p.n)); }
        uint16_t w = m_sample(p, r[i]);
        if (ST[i] != w) fail("entry %zu of S: 16-bit value %u sampled as %d, specification %d", i, r[i], (int16_t)ST[i], (int16_t)w);
    }
    // E is B - A*S: recover it with the model's A
    if (s.chance(30)) {
        Vec16 B = m_unpack(&o.a[16], n8, p.D);
        Vec16 zero(n8, 0);
        Vec16 AS = m_AS(p, m_genA(p, l.g, o.a.data()), ST.data(), zero.data());
        for (size_t i = 0; i < n8; i++) {
            uint16_t e = (uint16_t)(B[i] - AS[i]) & p.mask(), w = m_sample(p, r[n8 + i]) & p.mask();
            if (e != w) fail("entry %zu of E is %u, specification %u (16-bit value %u)", i, e, w, r[n8 + i]);
        }
        c.hit("E-checked");
    }
}
// encapsulation noise: E' and E'' recovered from the ciphertext
PROP(C20e) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    size_t n8 = 8 * (size_t)p.n;
    Bytes pk = gen_bytes(s, 16, &c, "seedA");
    pk.resize(p.pk(), 0);  // B = 0, so C = E'' + encode(mu)
    Bytes mu = gen_bytes(s, p.nss, &c, "mu");
    Out o = call_enc(l, pk, mu);
    CHECK_RC(o, "crypto_kem_enc");
    Bytes in = m_shake(p.shake, pk, p.nss);
    in.insert(in.end(), mu.begin(), mu.end());
    Bytes g2 = m_shake(p.shake, in, p.nss), in2(1, 0x96);
    in2.insert(in2.end(), g2.begin(), g2.end());
    Vec16 r = m_le16(m_shake(p.shake, in2, 2 * (2 * n8 + 64))), v(r);
    for (auto &x : v) x = m_sample(p, x);
    Vec16 enc = m_encode(p, mu), C = m_unpack(&o.a[p.c1()], 64, p.D);
    for (int i = 0; i < 64; i++)
        if (((C[i] - enc[i] - v[2 * n8 + i]) & p.mask()) != 0) fail("entry %d of E'': 16-bit value %u sampled as %d, specification %d", i, r[2 * n8 + i], (int16_t)(uint16_t)(C[i] - enc[i]), (int16_t)v[2 * n8 + i]);
    Vec16 Bp = m_unpack(o.a.data(), n8, p.D), want = m_SA(p, m_genA(p, l.g, pk.data()), v.data(), v.data() + n8);
    if (Bp != want) fail("B' - S'A is not the specified sample of E' (or S' is not)");
}

// ---------------------------------------------------------------- C21 (through the API)

PROP(C21) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    if (s.chance(50)) {  // S'A+E', S'B+E'' with arbitrary seed and extreme B
        Bytes pk = gen_bytes(s, 16, &c, "seedA");
        Vec16 B = gen_vec16(s, 8 * (size_t)p.n, p.D);
        Bytes b = m_pack(B.data(), B.size(), p.D), mu = gen_bytes(s, p.nss, &c, "mu");
        pk.insert(pk.end(), b.begin(), b.end());
        Out o = call_enc(l, pk, mu);
        CHECK_RC(o, "crypto_kem_enc");
        EncOut m = m_enc(p, l.g, pk, mu);
        c.hit("enc");
        if (o.a != m.ct) fail("S'A+E' or S'B+E'': %s", diffmsg(o.a, m.ct).c_str());
    } else {  // B'S with extreme S: the decoded message is right only if the product is
        DecCase d = craft(s, c, p, l.g, true);
        DecOut m = m_dec(p, l.g, d.sk, d.ct);
        c.hit(m.accepted ? "dec/accept" : "dec/degenerate");
        if (!m.accepted) c.nontrivial = false;
        Out o = call_dec(l, d.sk, d.ct);
        CHECK_RC(o, "crypto_kem_dec");
        if (o.a != m.ss) fail("B'S with extreme S: decapsulation differs from the specification");
    }
}
