#include "libs.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <valgrind/memcheck.h>

std::vector<Lib *> g_libs;
std::vector<std::string> g_allowed;
thread_local RngState g_rng;

extern "C" __attribute__((visibility("default"))) int randombytes(unsigned char *out, unsigned long long n) {
    RngState &r = g_rng;
    unsigned idx = r.calls++;
    if (r.fail_at >= 0 && idx >= (unsigned long)r.fail_at && idx < (unsigned long)(r.fail_at + r.fail_count)) {
        for (size_t i = 0; i < n && i < r.fail_fill; i++) out[i] = (uint8_t)(0x5A + i);
        return r.fail_ret;
    }
    for (unsigned long long i = 0; i < n; i++) {
        if (r.pos < r.data.size()) out[i] = r.data[r.pos];
        else { r.overrun = true; out[i] = (uint8_t)mix64(r.pos + 77); }
        if (r.pos >= r.taint_lo && r.pos < r.taint_hi) VALGRIND_MAKE_MEM_UNDEFINED(out + i, 1);
        r.pos++;
    }
    return 0;
}

void rng_set(const Bytes &b) {
    g_rng = RngState();
    g_rng.data = b;
}

void *Lib::rawsym(const char *n) const {
    if (std::find(g_allowed.begin(), g_allowed.end(), n) == g_allowed.end()) return nullptr;
    return dlsym(h, n);
}

static void open_lib(Lib &l) {
    l.h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) { fprintf(stderr, "dlopen %s: %s\n", l.path.c_str(), dlerror()); exit(3); }
    std::string sfx = "Frodo" + std::to_string(l.size);
    l.f_keypair = (decltype(l.f_keypair))dlsym(l.h, ("crypto_kem_keypair_" + sfx).c_str());
    l.f_enc = (decltype(l.f_enc))dlsym(l.h, ("crypto_kem_enc_" + sfx).c_str());
    l.f_dec = (decltype(l.f_dec))dlsym(l.h, ("crypto_kem_dec_" + sfx).c_str());
    if (!l.f_keypair || !l.f_enc || !l.f_dec) { fprintf(stderr, "API missing in %s\n", l.path.c_str()); exit(3); }
}
void reload_lib(Lib &l) {
    dlclose(l.h);
    open_lib(l);
}
Lib *load_lib(const std::string &name, const std::string &path) {
    Lib *l = new Lib;
    l->name = name;
    l->path = path;
    std::vector<std::string> f;
    std::string cur;
    for (char ch : name + ".") { if (ch == '.') { f.push_back(cur); cur.clear(); } else cur += ch; }
    if (f.size() < 4) { fprintf(stderr, "bad lib name %s\n", name.c_str()); exit(3); }
    l->gen = f[0]; l->opt = f[1]; l->mode = f[2]; l->size = (unsigned)atoi(f[3].c_str());
    l->g = l->gen[0] == 'a' ? GEN_AES : GEN_SHAKE;
    l->p = &params(l->size);
    open_lib(*l);
    g_libs.push_back(l);
    return l;
}

Lib &pick_lib(Src &s, Ctx &c) {
    Lib &l = *g_libs[g_libs.size() > 1 ? s.draw(g_libs.size() - 1) : 0];
    c.add("lib=%s", l.name.c_str());
    c.hit("lib/" + l.name);
    return l;
}
Lib &pick_lib_like(Src &s, Ctx &c, const Lib &l, const char *what) {
    std::vector<Lib *> v;
    for (Lib *x : g_libs)
        if (x->size == l.size && x->g == l.g) v.push_back(x);
    Lib &r = *v[v.size() > 1 ? s.draw(v.size() - 1) : 0];
    c.add("%s=%s", what, r.name.c_str());
    return r;
}

// API buffers live at fixed places so that repeated calls see the same addresses
static thread_local Bytes t_a, t_b;

Out call_keypair(const Lib &l, const Bytes &rnd) {
    Out o;
    rng_set(rnd);
    o.a.assign(l.p->pk(), 0xEE);
    o.b.assign(l.p->sk(), 0xEE);
    o.rc = l.f_keypair(o.a.data(), o.b.data());
    o.used = g_rng.pos; o.calls = g_rng.calls; o.overrun = g_rng.overrun;
    return o;
}
Out call_enc(const Lib &l, const Bytes &pk, const Bytes &mu) {
    Out o;
    rng_set(mu);
    o.a.assign(l.p->ct(), 0xEE);
    o.b.assign(l.p->nss, 0xEE);
    o.rc = l.f_enc(o.a.data(), o.b.data(), pk.data());
    o.used = g_rng.pos; o.calls = g_rng.calls; o.overrun = g_rng.overrun;
    return o;
}
Out call_dec(const Lib &l, const Bytes &sk, const Bytes &ct) {
    Out o;
    rng_set({});
    o.a.assign(l.p->nss, 0xEE);
    o.rc = l.f_dec(o.a.data(), ct.data(), sk.data());
    o.used = g_rng.pos; o.calls = g_rng.calls; o.overrun = g_rng.overrun;
    return o;
}

Guard::Guard(size_t maxn) {
    const size_t pg = 4096;
    room = (maxn + 128 + pg - 1) / pg * pg;
    maplen = room + 2 * pg;
    base = (uint8_t *)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    if (mprotect(base + pg, room, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
}
Guard::~Guard() { munmap(base, maplen); }
uint8_t *Guard::place(size_t len, bool at_end, unsigned shift, uint8_t fill) {
    uint8_t *lo = base + 4096;
    if (shift > 64) shift = 64;
    memset(lo, canary, room);
    n = len;
    p = at_end ? lo + room - len - shift : lo + shift;
    memset(p, fill, len);
    return p;
}
bool Guard::slack_intact() const {
    const uint8_t *lo = base + 4096;
    for (const uint8_t *x = lo; x < p; x++) if (*x != canary) return false;
    for (const uint8_t *x = p + n; x < lo + room; x++) if (*x != canary) return false;
    return true;
}

void first_diff(const Bytes &a, const Bytes &b, size_t &pos) {
    for (pos = 0; pos < a.size() && pos < b.size(); pos++) if (a[pos] != b[pos]) return;
}
std::string diffmsg(const Bytes &got, const Bytes &want) {
    size_t pos;
    first_diff(got, want, pos);
    size_t cnt = 0;
    for (size_t i = 0; i < got.size() && i < want.size(); i++) cnt += got[i] != want[i];
    char b[256];
    snprintf(b, sizeof b, "%zu of %zu bytes differ, first at %zu: got %s want %s", cnt, want.size(), pos,
             hex(Bytes(got.begin() + std::min(pos, got.size()), got.end()), 8).c_str(),
             hex(Bytes(want.begin() + std::min(pos, want.size()), want.end()), 8).c_str());
    return b;
}

static const std::function<void()> *t_fn;
static void tramp() { (*t_fn)(); }
void run_on_stack(uint8_t *stack, size_t len, const std::function<void()> &f) {
    ucontext_t me, ctx;
    t_fn = &f;
    getcontext(&ctx);
    ctx.uc_stack.ss_sp = stack;
    ctx.uc_stack.ss_size = len;
    ctx.uc_link = &me;
    makecontext(&ctx, tramp, 0);
    swapcontext(&me, &ctx);
}
