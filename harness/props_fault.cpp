// C25: memory allocation or the AES provider fails during an operation. Library objects are linked with --wrap, so what
// they ask of the allocator and of OpenSSL passes here; OpenSSL's own allocations pass through its memory hooks.
#include "libs.hpp"
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

struct Fault {
    bool on = false;
    long mem_at = -1, evp_at = -1;  // the allocation or provider call that fails
    long count = 1;                 // and how many after it
    unsigned style = 0;             // a failing update leaves the output alone, fills part of it, or all of it with junk
    long mem = 0, evp = 0, injected = 0;
    bool hit(long at, long n) { if (at >= 0 && n >= at && n < at + count) { injected++; return true; } return false; }
};
static Fault F;
bool fault_mem() { return F.on && F.hit(F.mem_at, F.mem++); }
static bool fault_evp() { return F.on && F.hit(F.evp_at, F.evp++); }

extern "C" {
static void *f_malloc(size_t n, const char *, int) { return fault_mem() ? nullptr : malloc(n); }
static void *f_realloc(void *p, size_t n, const char *, int) { return fault_mem() ? nullptr : realloc(p, n); }
static void f_free(void *p, const char *, int) { free(p); }

EVP_CIPHER_CTX *__wrap_EVP_CIPHER_CTX_new(void) { return fault_evp() ? nullptr : EVP_CIPHER_CTX_new(); }
EVP_CIPHER *__wrap_EVP_CIPHER_fetch(OSSL_LIB_CTX *x, const char *a, const char *p) { return fault_evp() ? nullptr : EVP_CIPHER_fetch(x, a, p); }
int __wrap_EVP_EncryptInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv) { return fault_evp() ? 0 : EVP_EncryptInit(c, t, k, iv); }
int __wrap_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv) { return fault_evp() ? 0 : EVP_EncryptInit_ex(c, t, e, k, iv); }
int __wrap_EVP_EncryptInit_ex2(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv, const OSSL_PARAM *p) { return fault_evp() ? 0 : EVP_EncryptInit_ex2(c, t, k, iv, p); }
int __wrap_EVP_CipherInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv, int enc) { return fault_evp() ? 0 : EVP_CipherInit_ex(c, t, e, k, iv, enc); }
static int failing_update(unsigned char *o, int *ol, int n) {
    if (F.style) memset(o, 0x3C, F.style == 1 ? (size_t)n / 2 : (size_t)n);
    if (ol) *ol = F.style == 2 ? n : 0;
    return 0;
}
int __wrap_EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int n) { return fault_evp() ? failing_update(o, ol, n) : EVP_EncryptUpdate(c, o, ol, i, n); }
int __wrap_EVP_CipherUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int n) { return fault_evp() ? failing_update(o, ol, n) : EVP_CipherUpdate(c, o, ol, i, n); }
int __wrap_EVP_Cipher(EVP_CIPHER_CTX *c, unsigned char *o, const unsigned char *i, unsigned n) { return fault_evp() ? (failing_update(o, nullptr, (int)n), -1) : EVP_Cipher(c, o, i, n); }
int __wrap_EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *o, int *ol) { return fault_evp() ? 0 : EVP_EncryptFinal_ex(c, o, ol); }
}
// must precede every use of OpenSSL
bool fault_hooks() { return CRYPTO_set_mem_functions(f_malloc, f_realloc, f_free) == 1; }

static bool wrall(int fd, const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; while (n) { ssize_t r = write(fd, b, n); if (r <= 0) return false; b += r; n -= (size_t)r; } return true; }
static bool rdall(int fd, void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n) { ssize_t r = read(fd, b, n); if (r <= 0) return false; b += r; n -= (size_t)r; } return true; }

static Out run_op(const Lib &l, unsigned op, const Bytes &a, const Bytes &b) { return op == 0 ? call_keypair(l, a) : op == 1 ? call_enc(l, a, b) : call_dec(l, a, b); }

PROP(C25) {
    static bool hooks = c.geti("hooks", 0) != 0;
    size_t li = g_libs.size() > 1 ? s.draw(g_libs.size() - 1) : 0;
    const Params &p = *g_libs[li]->p;
    static std::vector<Lib *> fl(16, nullptr);
    if (!fl[li]) {  // the variant of the library whose provider calls can fail, if it has any
        Lib *x = new Lib(*g_libs[li]);
        std::string alt = x->path.substr(0, x->path.rfind('/')) + "/fault" + std::to_string(x->size) + ".so";
        if (!access(alt.c_str(), R_OK)) { x->path = alt; x->h = dlopen(g_libs[li]->path.c_str(), RTLD_NOW | RTLD_LOCAL); reload_lib(*x); }
        fl[li] = x;
    }
    const Lib &l = *fl[li];
    c.add("lib=%s", l.name.c_str());
    c.hit("lib/" + l.name);
    unsigned op = (unsigned)s.draw(2);
    static const char *ops[] = {"keypair", "enc", "dec"};
    uint64_t seed = s.seed();
    bool valid = s.chance(60);
    size_t flip = s.draw(p.ct() - 1);
    // The inputs and the specified results come from a child, so that this process has never used OpenSSL.
    Bytes a, b;
    Out want;
    {
        int fd[2];
        if (pipe(fd)) { perror("pipe"); exit(3); }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            Rng r(seed);
            auto rb = [&](size_t n) { Bytes v(n); r.fill(v.data(), n); return v; };
            Bytes rnd = rb(p.kgrand()), mu = rb(p.nss);
            KeyPair k = m_keypair(p, l.g, rnd);
            if (op == 0) { a = rnd; want.a = k.pk; want.b = k.sk; }
            else {
                EncOut e = m_enc(p, l.g, k.pk, mu);
                if (op == 1) { a = k.pk; b = mu; want.a = e.ct; want.b = e.ss; }
                else { a = k.sk; b = e.ct; if (!valid) b[flip] ^= 1; want.a = valid ? e.ss : m_dec(p, l.g, a, b).ss; }
            }
            for (const Bytes *x : {&a, &b, &want.a, &want.b}) {
                uint64_t n = x->size();
                if (!wrall(fd[1], &n, 8) || !wrall(fd[1], x->data(), n)) _exit(1);
            }
            _exit(0);
        }
        close(fd[1]);
        for (Bytes *x : {&a, &b, &want.a, &want.b}) {
            uint64_t n;
            if (!rdall(fd[0], &n, 8)) { fprintf(stderr, "model process failed\n"); exit(3); }
            x->resize(n);
            if (!rdall(fd[0], x->data(), n)) { fprintf(stderr, "model process failed\n"); exit(3); }
        }
        close(fd[0]);
        while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) {}
    }
    Fault f;
    bool mem = s.chance(hooks ? 50 : 20);
    bool warm = mem || s.chance(60);  // OpenSSL's own initialisation does not survive failing allocations
    long at = mem ? (long)(s.chance(60) ? s.draw(5) : s.draw(40)) : (long)(s.chance(60) ? s.draw(4) : s.draw(p.n / 4 + 8));
    (mem ? f.mem_at : f.evp_at) = at;
    f.count = s.chance(60) ? 1 : 1000000;
    f.style = (unsigned)s.draw(2);
    c.add("%s %s %ld fails%s%s", ops[op], mem ? "allocation" : "provider call", at, f.count > 1 ? " and all after it" : "", warm ? "" : ", first call of the process");
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        struct rlimit z = {0, 0};
        setrlimit(RLIMIT_CORE, &z);
        for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(sg, SIG_DFL);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1); dup2(nul, 2);
        alarm(20);
        if (warm) run_op(l, op, a, b);
        F = f; F.on = true;
        // the call returns through here; anything this harness allocates must not fail
        rng_set(op == 0 ? a : op == 1 ? b : Bytes());
        Bytes oa(want.a.size(), 0xEE), ob(std::max<size_t>(want.b.size(), 1), 0xEE);
        F.mem = 0;
        int rc = op == 0 ? l.f_keypair(oa.data(), ob.data()) : op == 1 ? l.f_enc(oa.data(), ob.data(), a.data()) : l.f_dec(oa.data(), b.data(), a.data());
        F.on = false;
        Out again = run_op(l, op, a, b);
        int64_t h[3] = {rc, F.injected, again.rc == 0 && again.a == want.a && (want.b.empty() || again.b == want.b)};
        ob.resize(want.b.size());
        bool same = oa == want.a && ob == want.b;
        h[2] |= (int64_t)same << 1;
        if (!wrall(fd[1], h, sizeof h)) _exit(99);
        _exit(0);
    }
    close(fd[1]);
    int64_t h[3] = {0, 0, 0};
    bool got = rdall(fd[0], h, sizeof h);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!got) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) fail("%s does not end after %s %ld fails", ops[op], mem ? "allocation" : "provider call", at);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) fail("%s crashes (signal %d) after %s %ld fails", ops[op], WTERMSIG(st), mem ? "allocation" : "provider call", at);
        c.hit(WIFSIGNALED(st) ? "aborted" : "exited");
        return;
    }
    if (!h[1]) {  // fewer calls than that: nothing failed
        c.nontrivial = false;
        c.hit("no fault");
        if (h[0] || !(h[2] & 2)) fail("%s is wrong without any fault (returned %d)", ops[op], (int)h[0]);
        return;
    }
    if (h[0] == 0 && !(h[2] & 2)) fail("%s returns success and wrong output although %s %ld failed", ops[op], mem ? "allocation" : "provider call", at);
    if (h[0] == 0) c.hit("recovered"); else c.hit("reported");
    if (!(h[2] & 1)) fail("after a failure of %s %ld during %s the next call is wrong", mem ? "allocation" : "provider call", at, ops[op]);
}
