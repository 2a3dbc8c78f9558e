// C08 (no secret-dependent branches or addresses) and C09 (secrets wiped from the memory a call used).
#include "libs.hpp"
#include <algorithm>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <valgrind/memcheck.h>

#include "gens.hpp"

// ---------------------------------------------------------------- C08 under valgrind

static uint8_t *vbuf(size_t n) {
    uint8_t *p = (uint8_t *)aligned_alloc(64, (n + 127) / 64 * 64);
    if (!p) { perror("aligned_alloc"); exit(3); }
    return p;
}
static void undef(const uint8_t *p, size_t n) { (void)p; (void)n; VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void def(const uint8_t *p, size_t n) { (void)p; (void)n; VALGRIND_MAKE_MEM_DEFINED(p, n); }

PROP(C08v) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    if (!RUNNING_ON_VALGRIND) fail("not running under valgrind");
    unsigned op = s.weighted({25, 30, 45});
    static const char *ops[] = {"keypair", "enc", "dec"};
    uint8_t *a = vbuf(21632), *b = vbuf(43088), *in = vbuf(43088), *in2 = vbuf(21632);
    memset(a, 0, 21632);
    memset(b, 0, 43088);
    unsigned before = 0, after = 0;
    int rc = 0;
    if (op == 0) {
        rng_set(gen_rnd(s, c, p));
        g_rng.taint_lo = 0; g_rng.taint_hi = 2 * p.nss;  // s and seedSE; z is public
        c.add("op=keypair");
        before = VALGRIND_COUNT_ERRORS;
        rc = l.f_keypair(a, b);
    } else if (op == 1) {
        Bytes pk = gen_pk(s, c, p, l.g);
        memcpy(in, pk.data(), pk.size());
        rng_set(gen_bytes(s, p.nss, &c, "mu"));
        g_rng.taint_lo = 0; g_rng.taint_hi = p.nss;
        c.add("op=enc");
        before = VALGRIND_COUNT_ERRORS;
        rc = l.f_enc(a, b, in);
    } else {
        DecCase d = gen_dec(s, c, p, l.g);
        c.add("op=dec kind=%s", d.kind);
        c.hit(d.kind);
        memcpy(in, d.sk.data(), d.sk.size());
        memcpy(in2, d.ct.data(), d.ct.size());
        undef(in, p.nss);                                   // s
        undef(in + p.off_S(), p.off_pkh() - p.off_S());     // S
        rng_set({});
        before = VALGRIND_COUNT_ERRORS;
        rc = l.f_dec(a, in2, in);
    }
    after = VALGRIND_COUNT_ERRORS;
    def((uint8_t *)&rc, sizeof rc);
    def(a, 21632); def(b, 43088); def(in, 43088);
    free(a); free(b); free(in); free(in2);
    rng_set({});
    c.hit(ops[op]);
    if (rc) fail("%s returned %d", ops[op], rc);
    if (after != before) fail("%s on %s: %u uses of a secret value in a branch condition or memory address", ops[op], l.name.c_str(), after - before);
}

// ---------------------------------------------------------------- C08 by comparing execution traces

namespace {
struct Trace { uint64_t h, n, stop_at; uint64_t site; };
struct Ckpt { uint64_t h, n; };
}
static bool t_on = false;
static Trace t_tr;
static std::vector<uint64_t> *t_ck;
static const unsigned CK = 1 << 16;
static inline void ev(uint64_t x) {
    t_tr.h = (t_tr.h ^ x) * 0x9e3779b97f4a7c15ULL;
    t_tr.h ^= t_tr.h >> 29;
    t_tr.n++;
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    static uint32_t id = 0;
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++id;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (t_on) ev(*g); }
#define TR(n) \
    void __sanitizer_cov_load##n(void *p) { if (t_on) ev((uint64_t)p * 16 + n % 15); } \
    void __sanitizer_cov_store##n(void *p) { if (t_on) ev((uint64_t)p * 16 + 8 + n % 15); }
TR(1) TR(2) TR(4) TR(8) TR(16)
}

// One traced call in a forked child, so that stack and heap addresses are the same for every variant.
static Trace traced(const Lib &l, unsigned op, const Bytes &in1, const Bytes &in2, int &rc) {
    // everything the call reads or writes sits in fixed places, filled before the fork
    static uint8_t *pa = vbuf(43200), *pb = vbuf(43200), *po1 = vbuf(43200), *po2 = vbuf(43200);
    struct Res { Trace t; int rc; };
    static Res *res = (Res *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(pa, 0, 43200); memset(pb, 0, 43200); memset(po1, 0, 43200); memset(po2, 0, 43200);
    memcpy(pa, in1.data(), in1.size());
    memcpy(pb, in2.data(), in2.size());
    rng_set(op == 0 ? in1 : op == 1 ? in2 : Bytes());
    res->rc = -99;
    pid_t pid = fork();
    if (pid == 0) {
        t_tr = Trace();
        t_on = true;
        int r = op == 0 ? l.f_keypair(po1, po2) : op == 1 ? l.f_enc(po1, po2, pa) : l.f_dec(po1, pb, pa);
        t_on = false;
        res->t = t_tr;
        res->rc = r;
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("traced call crashed");
    rc = res->rc;
    return res->t;
}

// Two calls with the same public inputs and different secrets must execute the same blocks and addresses.
PROP(C08t) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    unsigned op = s.weighted({25, 25, 50});
    static const char *ops[] = {"keypair", "enc", "dec"};
    unsigned variants = (unsigned)c.geti("variants", 3);
    Trace t0 = Trace();
    int rc0 = 0;
    auto check = [&](unsigned i, const Bytes &x, const Bytes &y, const char *what) {
        int rc;
        Trace t = traced(l, op, x, y, rc);
        if (i == 0) { t0 = t; rc0 = rc; if (t.n < 100) fail("no trace"); return; }
        if (rc != rc0) fail("%s: return value depends on secrets (%s)", ops[op], what);
        if (t.h != t0.h || t.n != t0.n)
            fail("%s on %s: blocks executed or addresses accessed depend on secrets (%s): %llu against %llu events", ops[op], l.name.c_str(), what, (unsigned long long)t.n, (unsigned long long)t0.n);
    };
    if (op == 0) {
        Bytes z = gen_bytes(s, 16, &c, "z");
        for (unsigned i = 0; i < variants; i++) {
            Bytes r = gen_bytes(s, 2 * p.nss, &c, "s||seedSE");
            r.insert(r.end(), z.begin(), z.end());
            check(i, r, {}, "s, seedSE");
        }
    } else if (op == 1) {
        Bytes pk = gen_pk(s, c, p, l.g);
        for (unsigned i = 0; i < variants; i++) check(i, pk, gen_bytes(s, p.nss, &c, "mu"), "mu");
    } else {
        // public: pk, pkh, ct. secret: s, S. The first key may be the one that accepts.
        DecCase d = gen_dec(s, c, p, l.g);
        c.add("kind=%s", d.kind);
        for (unsigned i = 0; i < variants; i++) {
            Bytes sk = d.sk;
            if (i) {
                if (s.chance(70)) { Bytes x = gen_bytes(s, p.nss, &c, "s"); std::copy(x.begin(), x.end(), sk.begin()); }
                switch (s.weighted({15, 30, 25, 30})) {
                case 0: break;
                case 1: { Bytes x = gen_bytes(s, p.off_pkh() - p.off_S(), &c, "S"); std::copy(x.begin(), x.end(), sk.begin() + p.off_S()); break; }
                case 2: { Vec16 v = gen_vec16(s, 8 * (size_t)p.n, p.D); Bytes x = le16_bytes(v.data(), v.size()); std::copy(x.begin(), x.end(), sk.begin() + p.off_S()); break; }
                case 3: { size_t k = s.range(1, 4); for (size_t j = 0; j < k; j++) sk[s.range(p.off_S(), p.off_pkh() - 1)] ^= (uint8_t)s.range(1, 255); break; }
                }
            }
            check(i, sk, d.ct, "s, S");
        }
    }
    c.add("op=%s variants=%u events=%llu", ops[op], variants, (unsigned long long)t0.n);
    c.hit(ops[op]);
}

// ---------------------------------------------------------------- C09

namespace {
struct Secret { const char *name; Bytes b; size_t win; bool matrix; };
}
static unsigned distinct_bytes(const uint8_t *p, size_t n) {
    bool seen[256] = {false};
    unsigned d = 0;
    for (size_t i = 0; i < n; i++) if (!seen[p[i]]) { seen[p[i]] = true; d++; }
    return d;
}
static size_t g_win = 16, g_mwin = 64;  // how much of a string or a matrix counts as left behind
static void add_matrix(std::vector<Secret> &v, const char *name, const Vec16 &m, const Params &p, bool transpose, size_t rows) {
    size_t win = g_mwin;
    v.push_back({name, le16_bytes(m.data(), m.size()), win, true});
    if (transpose) {
        size_t cols = m.size() / rows;
        Vec16 t(m.size());
        for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) t[j * rows + i] = m[i * cols + j];
        v.push_back({name, le16_bytes(t.data(), t.size()), win, true});
    }
    (void)p;
}

// What the library takes from the heap during a watched call comes from a region that is searched afterwards. The
// objects are linked with --wrap for these functions.
static const size_t ARENA = 64u << 20;
static uint8_t *g_arena;
static size_t g_arena_used;
static bool g_arena_on;
static void *arena_take(size_t n, size_t al) {
    size_t at = (g_arena_used + 16 + al - 1) / al * al;
    if (at + n + 32 > ARENA) return nullptr;
    g_arena_used = at + n;
    memcpy(g_arena + at - 8, &n, 8);
    return g_arena + at;
}
static bool in_arena(const void *p) { return g_arena && (const uint8_t *)p >= g_arena && (const uint8_t *)p < g_arena + ARENA; }
bool fault_mem();  // C25
extern "C" {
void *__wrap_malloc(size_t n) { if (fault_mem()) return nullptr; return g_arena_on ? arena_take(n, 16) : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    if (fault_mem()) return nullptr;
    if (!g_arena_on) return calloc(a, b);
    void *p = arena_take(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p) { if (!in_arena(p)) free(p); }
void *__wrap_realloc(void *o, size_t n) {
    if (fault_mem()) return nullptr;
    if (!g_arena_on && !in_arena(o)) return realloc(o, n);
    void *p = g_arena_on ? arena_take(n, 16) : malloc(n);
    if (p && o) {
        size_t was = n;
        if (in_arena(o)) memcpy(&was, (uint8_t *)o - 8, 8);
        memcpy(p, o, std::min(was, n));
        __wrap_free(o);
    }
    return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { if (fault_mem()) return nullptr; return g_arena_on ? arena_take(n, std::max<size_t>(al, 16)) : aligned_alloc(al, n); }
void *__wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
    if (fault_mem()) return 12;
    if (!g_arena_on) return posix_memalign(p, al, n);
    *p = arena_take(n, std::max<size_t>(al, 16));
    return *p ? 0 : 12;
}
void *__wrap__mm_malloc(size_t n, size_t al) { return __wrap_aligned_alloc(al, n); }
void __wrap__mm_free(void *p) { __wrap_free(p); }
}
// writable memory of a loaded library
static std::vector<std::pair<const uint8_t *, size_t>> statics(const std::string &path) {
    struct Arg { const std::string *path; std::vector<std::pair<const uint8_t *, size_t>> r; } a = {&path, {}};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) {
        Arg *x = (Arg *)v;
        if (*x->path != i->dlpi_name) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
                x->r.push_back({(const uint8_t *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_memsz});
        return 0;
    }, &a);
    return a.r;
}

PROP(C09) {
    Lib &l = pick_lib(s, c);
    const Params &p = *l.p;
    const size_t SL = 24u << 20;
    g_win = (size_t)c.geti("win", 16);
    g_mwin = (size_t)c.geti("mwin", 64);
    static uint8_t *stack = (uint8_t *)mmap(nullptr, SL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static size_t used_max = SL;
    const uint8_t PAT = 0xC7;
    memset(stack + (SL - used_max), PAT, used_max);
    unsigned op = s.weighted({30, 30, 40});
    static const char *ops[] = {"keypair", "enc", "dec"};
    std::vector<Secret> sec;
    Bytes in1, in2, out1(std::max(p.pk(), p.ct())), out2(p.sk());
    size_t n8 = 8 * (size_t)p.n;
    Bytes recC;
    auto enc_secrets = [&](const EncOut &o, const Bytes &mu) {
        recC = le16_bytes(o.C.data(), o.C.size());
        sec.push_back({"mu", mu, g_win, false});
        sec.push_back({"k", o.k, g_win, false});
        sec.push_back({"seedSE'", o.seedSE, g_win, false});
        add_matrix(sec, "S'", o.Sp, p, true, 8);
        add_matrix(sec, "E'", o.Ep, p, true, 8);
        add_matrix(sec, "E''", o.Epp, p, true, 8);
        add_matrix(sec, "V", o.V, p, false, 8);
        Bytes in(1, 0x96);
        in.insert(in.end(), o.seedSE.begin(), o.seedSE.end());
        sec.push_back({"unsampled S'||E'||E''", m_shake(p.shake, in, 2 * (2 * n8 + 64)), 64, false});
    };
    if (op == 0) {
        in1 = gen_rnd(s, c, p);
        KeyPair k = m_keypair(p, l.g, in1);
        sec.push_back({"s", Bytes(in1.begin(), in1.begin() + p.nss), g_win, false});
        sec.push_back({"seedSE", Bytes(in1.begin() + p.nss, in1.begin() + 2 * p.nss), g_win, false});
        add_matrix(sec, "S", k.ST, p, true, 8);
        add_matrix(sec, "E", k.E, p, true, p.n);
        Bytes in(1, 0x5f);
        in.insert(in.end(), in1.begin() + p.nss, in1.begin() + 2 * p.nss);
        sec.push_back({"unsampled S||E", m_shake(p.shake, in, 4 * n8), 64, false});
    } else if (op == 1) {
        in1 = gen_pk(s, c, p, l.g);
        in2 = gen_bytes(s, p.nss, &c, "mu");
        enc_secrets(m_enc(p, l.g, in1, in2), in2);
    } else {
        DecCase d = gen_dec(s, c, p, l.g);
        c.add("kind=%s", d.kind);
        in1 = d.sk; in2 = d.ct;
        DecOut m = m_dec(p, l.g, d.sk, d.ct);
        c.hit(m.accepted ? "dec/accept" : "dec/reject");
        sec.push_back({"s", Bytes(in1.begin(), in1.begin() + p.nss), g_win, false});
        Vec16 ST = m_le16(Bytes(in1.begin() + p.off_S(), in1.begin() + p.off_pkh()));
        add_matrix(sec, "S", ST, p, true, 8);
        Bytes pkh(in1.begin() + p.off_pkh(), in1.end());
        enc_secrets(m_encrypt(p, l.g, &in1[p.nss], &in1[p.nss + 16], pkh.data(), m.mu), m.mu);
        Vec16 Bp = m_unpack(in2.data(), n8, p.D), C = m_unpack(&in2[p.c1()], 64, p.D), M = m_BS(p, Bp.data(), ST.data());
        for (int i = 0; i < 64; i++) M[i] = (uint16_t)(C[i] - M[i]) & p.mask();
        add_matrix(sec, "C-B'S", M, p, false, 8);
    }
    // values that are public must not count: remember every window of them
    Bytes pub;
    if (op == 1) pub = in1;
    if (op == 2) { pub.assign(in1.begin() + p.nss, in1.begin() + p.off_S()); pub.insert(pub.end(), in1.begin() + p.off_pkh(), in1.end()); pub.insert(pub.end(), in2.begin(), in2.end()); }
    if (op == 0) pub.assign(in1.begin() + 2 * p.nss, in1.end());
    rng_set(op == 0 ? in1 : op == 1 ? in2 : Bytes());
    int rc = -1;
    if (!g_arena) g_arena = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(g_arena, PAT, g_arena_used + 64);
    g_arena_used = 0;
    g_arena_on = true;
    run_on_stack(stack, SL, [&] {
        rc = op == 0 ? l.f_keypair(out1.data(), out2.data()) : op == 1 ? l.f_enc(out1.data(), out2.data(), in1.data()) : l.f_dec(out1.data(), in2.data(), in1.data());
    });
    g_arena_on = false;
    if (rc) fail("%s returned %d", ops[op], rc);
    size_t lo = 0;
    while (lo < SL && stack[lo] == PAT) lo++;
    used_max = std::max<size_t>(SL - lo + 4096, 1 << 16);
    if (used_max > SL) used_max = SL;
    if (op != 2) pub.insert(pub.end(), out1.begin(), out1.end());
    // public matrices in unpacked form (B, B', C, and the re-encrypted C when the message contributes nothing)
    auto pubm = [&](const uint8_t *q, size_t n) { Vec16 v = m_unpack(q, n, p.D); Bytes x = le16_bytes(v.data(), v.size()); pub.insert(pub.end(), x.begin(), x.end()); };
    if (op == 0) pubm(&out1[16], n8);
    if (op == 1) { pubm(&in1[16], n8); pubm(out1.data(), n8); pubm(&out1[p.c1()], 64); }
    if (op == 2) { pubm(&in1[p.nss + 16], n8); pubm(in2.data(), n8); pubm(&in2[p.c1()], 64); }
    pub.insert(pub.end(), recC.begin(), recC.end());
    // index of 8-byte prefixes of every secret window
    std::unordered_multimap<uint64_t, std::pair<unsigned, unsigned>> idx;
    std::vector<uint64_t> bloom(1 << 14, 0);
    auto rd = [](const uint8_t *q) { uint64_t v; memcpy(&v, q, 8); return v; };
    size_t windows = 0;
    for (unsigned k = 0; k < sec.size(); k++) {
        Secret &x = sec[k];
        size_t step = x.matrix ? 2 : 1;
        for (size_t i = 0; i + x.win <= x.b.size(); i += step) {
            unsigned need = x.matrix ? 4 : x.win >= 64 ? 24 : x.win >= 16 ? 9 : 8;
            if (distinct_bytes(&x.b[i], x.win) < need) continue;  // could be there by chance
            uint64_t h = rd(&x.b[i]);
            idx.emplace(h, std::make_pair(k, (unsigned)i));
            uint64_t z = mix64(h) & ((1 << 20) - 1);
            bloom[z >> 6] |= 1ULL << (z & 63);
            windows++;
        }
    }
    c.add("op=%s stack=%zu windows=%zu", ops[op], SL - lo, windows);
    c.hit(ops[op]);
    if (!windows) c.nontrivial = false;
    struct Region { const char *name; const uint8_t *p; size_t n; };
    std::vector<Region> reg = {{"on the stack", stack + lo, SL - lo}, {"in heap memory", g_arena, g_arena_used}};
    auto st = statics(l.path);
    if (st.empty()) { fprintf(stderr, "no writable segment found in %s\n", l.path.c_str()); exit(3); }
    for (auto &x : st) reg.push_back({"in static memory", x.first, x.second});
    for (Region &g : reg)
    for (const uint8_t *q = g.p; g.n >= 8 && q <= g.p + g.n - 8; q++) {
        uint64_t h = rd(q), z = mix64(h) & ((1 << 20) - 1);
        if (!(bloom[z >> 6] >> (z & 63) & 1)) continue;
        auto r = idx.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Secret &x = sec[it->second.first];
            size_t i = it->second.second;
            if (q + x.win > g.p + g.n || memcmp(q, &x.b[i], x.win)) continue;
            // also part of a public value?
            if (std::search(pub.begin(), pub.end(), x.b.begin() + i, x.b.begin() + i + x.win) != pub.end()) continue;
            fail("%s on %s leaves %zu bytes of %s (offset %zu) %s, %zu bytes before its end", ops[op], l.name.c_str(), x.win, x.name, i, g.name, (size_t)(g.p + g.n - q));
        }
    }
}
