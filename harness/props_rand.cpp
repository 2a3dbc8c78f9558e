// C11: randombytes over a simulated device. The object is linked with --wrap, so the system calls it makes land here.
#include "libs.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <mutex>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

namespace {
enum Ev { E_FULL, E_SHORT1, E_SHORTHALF, E_SHORTN1, E_EINTR, E_EAGAIN, E_EIO, E_ZERO, E_SHORTK, E_NKIND };
const char *ev_name[] = {"full", "short:1", "short:half", "short:n-1", "EINTR", "EAGAIN", "EIO", "zero", "short:k"};
struct Step { Ev e; uint64_t k; };
struct World {
    uint64_t seed = 0, pos = 0;           // device stream
    std::vector<Step> reads;
    std::vector<int> opens;               // errno per open, 0 = succeeds
    size_t ri = 0, oi = 0;
    std::vector<int> fds;                 // descriptors currently open
    int next_fd = 1000;
    size_t max_open = 0;
    std::string trouble;
    // large requests write only at sampled offsets
    uint8_t *big = nullptr;
    uint64_t biglen = 0;
    std::vector<uint64_t> sample;
    uint64_t injected = 0, nreads = 0;
    // histories over threads and forked processes: one device for all of them, delivering whole 8-byte words
    uint64_t *shared_pos = nullptr;
    unsigned pause = 0;
};
World *W;
std::recursive_mutex M;
struct Lock {
    Lock() { if (W->pause) for (unsigned i = 0; i < (W->nreads * 7 + W->oi) % (W->pause + 1); i++) sched_yield(); M.lock(); }
    ~Lock() { M.unlock(); if (W->pause) sched_yield(); }
};
}
static inline uint8_t dev_byte(uint64_t i) { return (uint8_t)(mix64(W->seed ^ (i >> 3)) >> (8 * (i & 7))); }
static void deliver(uint8_t *p, uint64_t n) {
    if (W->shared_pos) {
        uint64_t at = __atomic_fetch_add(W->shared_pos, n, __ATOMIC_SEQ_CST);
        for (uint64_t i = 0; i < n; i++) p[i] = dev_byte(at + i);
        return;
    }
    uintptr_t a = (uintptr_t)p, b = (uintptr_t)W->big;
    if (W->big && a >= b && a < b + W->biglen) {
        uint64_t o = a - b;
        auto it = std::lower_bound(W->sample.begin(), W->sample.end(), o);
        for (; it != W->sample.end() && *it < o + n; ++it) W->big[*it] = dev_byte(W->pos + (*it - o));
    } else
        for (uint64_t i = 0; i < n; i++) p[i] = dev_byte(W->pos + i);
    W->pos += n;
}
static ssize_t dev_read(void *buf, size_t n) {
    Lock lk;
    W->nreads++;
    if (n > 0x7ffff000) n = 0x7ffff000;
    Step st = {E_FULL, 0};
    if (W->ri < W->reads.size()) st = W->reads[W->ri++];
    if (n == 0) return 0;
    uint64_t k = n;
    switch (st.e) {
    case E_SHORT1: k = 1; break;
    case E_SHORTHALF: k = (n + 1) / 2; break;
    case E_SHORTN1: k = n > 1 ? n - 1 : 1; break;
    case E_SHORTK: k = 1 + st.k % n; break;
    case E_ZERO: W->injected++; return 0;
    case E_EINTR: case E_EAGAIN: case E_EIO:
        W->injected++;
        *(volatile uint8_t *)buf = 0xDD;  // a failed read may leave anything behind
        errno = st.e == E_EINTR ? EINTR : st.e == E_EAGAIN ? EAGAIN : EIO;
        return -1;
    default: break;
    }
    if (W->shared_pos && n >= 8) k = std::max<uint64_t>(8, k & ~7ull);
    if (k < n) W->injected++;
    deliver((uint8_t *)buf, k);
    return (ssize_t)k;
}
static int dev_open(const char *path) {
    Lock lk;
    if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { errno = ENOENT; return -1; }
    int e = 0;
    if (W->oi < W->opens.size()) e = W->opens[W->oi++];
    if (e) { W->injected++; errno = e; return -1; }
    int fd = W->next_fd++;
    W->fds.push_back(fd);
    W->max_open = std::max(W->max_open, W->fds.size());
    return fd;
}
extern "C" {
int __wrap_open(const char *p, int, ...) { return dev_open(p); }
int __wrap_open64(const char *p, int, ...) { return dev_open(p); }
int __wrap_openat(int, const char *p, int, ...) { return dev_open(p); }
int __wrap_openat64(int, const char *p, int, ...) { return dev_open(p); }
int __wrap___open_2(const char *p, int) { return dev_open(p); }
int __wrap___open64_2(const char *p, int) { return dev_open(p); }
static bool fd_ok(int fd) { Lock lk; return std::find(W->fds.begin(), W->fds.end(), fd) != W->fds.end(); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (!fd_ok(fd)) { Lock lk; if (!W->shared_pos && W->trouble.empty()) W->trouble = "reads from descriptor " + std::to_string(fd) + ", which is not open"; errno = EBADF; return -1; }
    return dev_read(b, n);
}
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { return dev_read(b, std::min<size_t>(n, 33554431)); }
int __wrap_getentropy(void *b, size_t n) {
    if (n > 256) { errno = EIO; return -1; }
    deliver((uint8_t *)b, n);
    return 0;
}
int __wrap_close(int fd) {
    Lock lk;
    auto it = std::find(W->fds.begin(), W->fds.end(), fd);
    if (it == W->fds.end()) { if (W->trouble.empty()) W->trouble = "closes a descriptor that is not open"; errno = EBADF; return -1; }
    W->fds.erase(it);
    return 0;
}
static ssize_t ck_read(void *, char *b, size_t n) { return dev_read(b, n); }
FILE *__wrap_fopen(const char *p, const char *) {
    int fd = dev_open(p);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, nullptr, nullptr, nullptr};
    return fopencookie(nullptr, "r", io);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { return fread(b, s, n, f); }
size_t __wrap___fread_chk(void *b, size_t, size_t s, size_t n, FILE *f) { return fread(b, s, n, f); }
int __wrap_fclose(FILE *f) { if (!W->fds.empty()) W->fds.pop_back(); return fclose(f); }
int __wrap_usleep(useconds_t) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
int __wrap_poll(struct pollfd *f, nfds_t n, int) { for (nfds_t i = 0; i < n; i++) f[i].revents = POLLIN; return (int)n; }
long __wrap_syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_getrandom) return __wrap_getrandom((void *)a, (size_t)b, (unsigned)c);
    if (nr == SYS_read) return __wrap_read((int)a, (void *)b, (size_t)c);
    if (nr == SYS_openat) return dev_open((const char *)b);
    if (nr == SYS_close) return __wrap_close((int)a);
    errno = ENOSYS;
    return -1;
}
}

static const int open_errs[] = {EMFILE, EINTR, ENOENT, ENFILE, EACCES, ENOMEM, EAGAIN, EIO};

PROP(C11) {
    std::string path = c.opt["random"];
    World w;
    W = &w;
    w.seed = s.seed();
    bool enumerate = c.geti("enum", -1) >= 0, large = c.geti("large", 0) != 0;
    static const int fdv[] = {1000, 3, 0, 1, 2, 5000};
    std::vector<uint64_t> req;
    std::string d;
    if (enumerate) {
        // index -> (open failures 0..2) x (four read outcomes of 8 kinds) x (sizes) x (descriptor number)
        static const unsigned sizes[][2] = {{48, 16}, {80, 0}, {1, 33}, {0, 24}};
        uint64_t idx = (uint64_t)c.geti("enum", 0) + (uint64_t)c.geti("case_index", 0) * (uint64_t)c.geti("stride", 1);
        const uint64_t total = 3ull * 8 * 8 * 8 * 8 * 4 * 2;
        idx = s.decide(total - 1, [&] { return idx % total; });
        c.add("schedule#%llu", (unsigned long long)idx);
        unsigned of = idx % 3; idx /= 3;
        for (unsigned i = 0; i < of; i++) w.opens.push_back(open_errs[i]);
        for (int i = 0; i < 4; i++) { w.reads.push_back({(Ev)(idx % 8), 0}); idx /= 8; }
        const unsigned *z = sizes[idx % 4]; idx /= 4;
        w.next_fd = idx % 2 ? 0 : 1000;
        req = {z[0], z[1], 40};
    } else if (large) {
        static const uint64_t base[] = {0x7fffffffull, 0x80000000ull, 0x7ffff000ull, 0xffffffffull, 0x100000000ull, 0x140000000ull};
        uint64_t b = base[s.draw(5)];
        long dd = (long)s.draw(40) - 20;
        req = {b + (uint64_t)dd, 64};
        unsigned nr = (unsigned)s.draw(3);
        for (unsigned i = 0; i < nr; i++) w.reads.push_back({(Ev)(s.chance(60) ? E_SHORTK : s.draw(E_NKIND - 1)), s.seed()});
    } else {
        // storms: one outcome over and over, as long as no source may give up
        unsigned storm = s.chance(5) ? (unsigned)s.range(1, 2) : 0, so = 0;
        uint64_t floor = 0;
        auto length = [&] {
            static const unsigned u[] = {16, 64, 100, 128, 256, 1000, 1024, 4096, 10000, 32768, 65536};
            return (uint64_t)u[s.draw(10)] + s.draw(4) * (1 + s.draw(60));
        };
        if (storm == 2 || (storm && s.chance(20))) so = (unsigned)(length() % 1100);
        unsigned no = s.chance(50) ? (unsigned)s.range(1, 4) : 0, nr = (unsigned)s.draw(24);
        if (so) { int e = open_errs[s.draw(7)]; for (unsigned i = 0; i < so; i++) w.opens.push_back(e); c.hit("storm/open"); c.add("%u failed opens;", so); }
        for (unsigned i = 0; i < no; i++) w.opens.push_back(open_errs[s.draw(7)]);
        unsigned at = storm ? (unsigned)s.draw(nr) : nr + 1;
        for (unsigned i = 0; i <= nr; i++) {
            if (i == at) {
                static const Ev k[] = {E_SHORT1, E_EINTR, E_EAGAIN, E_EIO, E_ZERO};
                Ev e = k[s.draw(4)];
                uint64_t n = length();
                for (uint64_t j = 0; j < n; j++) w.reads.push_back({e, 0});
                if (e == E_SHORT1) floor = n + s.draw(40);
                c.hit(std::string("storm/") + ev_name[e]);
                c.add("%llu x %s;", (unsigned long long)n, ev_name[e]);
            }
            if (i == nr) break;
            Ev e = (Ev)s.draw(E_NKIND - 1);
            w.reads.push_back({e, e == E_SHORTK ? s.seed() : 0});
        }
        w.next_fd = fdv[s.draw(5)];
        unsigned nq = (unsigned)s.range(1, 6);
        if (floor) req.push_back(floor);
        for (unsigned i = 0; i < nq; i++) {
            switch (s.weighted({40, 25, 20, 15})) {
            case 0: { static const unsigned u[] = {48, 64, 80, 16, 24, 32}; req.push_back(u[s.draw(5)]); break; }
            case 1: req.push_back(s.draw(8)); break;
            case 2: req.push_back(s.draw(300)); break;
            default: { static const unsigned u[] = {256, 255, 257, 4096, 65535, 65536, 65537, 1048576}; req.push_back(u[s.draw(7)]); break; }
            }
        }
    }
    for (size_t i = 0; i < w.opens.size() && i < 40; i++) d += std::string("open:") + strerrorname_np(w.opens[i]) + " ";
    for (size_t i = 0; i < w.reads.size() && i < 40; i++) d += std::string(ev_name[w.reads[i].e]) + " ";
    for (uint64_t q : req) d += "req" + std::to_string(q) + " ";
    c.add("%s", d.c_str());
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); exit(3); }
    int (*rb)(unsigned char *, unsigned long long) = (int (*)(unsigned char *, unsigned long long))dlsym(h, "randombytes");
    if (!rb) { fprintf(stderr, "no randombytes\n"); exit(3); }
    std::string bad;
    char msg[256];
    uint64_t expect = 0;
    static const int stale[] = {0, EINTR, EAGAIN, EIO, ENOMEM, EBADF, 0};  // errno of whatever the caller did before
    for (size_t i = 0; i < req.size() && bad.empty(); i++) {
        uint64_t n = req[i];
        int before = stale[(w.seed + i) % 7];
        const size_t PAD = 4096;
        if (n > (64u << 20)) {
            size_t len = n + 2 * PAD;
            uint8_t *m = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) { perror("mmap"); exit(3); }
            uint8_t *t = m + PAD;
            std::vector<uint64_t> &sm = w.sample;
            sm.clear();
            uint64_t marks[] = {0, n, 0x7fffffffull, 0x7ffff000ull, 0xffffffffull, 0xfffff000ull, n / 2, n & 0xffffffffull, n & 0x7fffffffull};
            for (uint64_t q : marks) for (uint64_t o = q > 40 ? q - 40 : 0; o < q + 40 && o < n; o++) sm.push_back(o);
            Rng r(w.seed ^ 99);
            for (int k = 0; k < 3000; k++) sm.push_back(r.below(n));
            std::sort(sm.begin(), sm.end());
            sm.erase(std::unique(sm.begin(), sm.end()), sm.end());
            for (uint64_t o : sm) t[o] = (uint8_t)~dev_byte(expect + o);
            w.big = t; w.biglen = n;
            errno = before;
            int rc = rb(t, n);
            w.big = nullptr;
            if (rc) bad = "returned " + std::to_string(rc);
            for (uint64_t o : sm)
                if (bad.empty() && t[o] != dev_byte(expect + o)) { snprintf(msg, sizeof msg, "byte %llu of a request of %llu bytes is not the device's", (unsigned long long)o, (unsigned long long)n); bad = msg; }
            for (size_t k = 0; k < PAD && bad.empty(); k++) if (m[k] || t[n + k]) bad = "writes outside the request";
            munmap(m, len);
            c.hit("request>64M");
        } else {
            std::vector<uint8_t> buf(n + 128, 0xA6);
            uint8_t *t = buf.data() + 64;
            for (uint64_t k = 0; k < n; k++) t[k] = (uint8_t)~dev_byte(expect + k);  // no byte is right by accident
            errno = before;
            int rc = rb(t, n);
            if (rc) bad = "returned " + std::to_string(rc);
            for (uint64_t k = 0; k < n && bad.empty(); k++)
                if (t[k] != dev_byte(expect + k)) { snprintf(msg, sizeof msg, "byte %llu of request %zu (%llu bytes) is not the next byte of the device", (unsigned long long)k, i, (unsigned long long)n); bad = msg; }
            for (int k = 0; k < 64 && bad.empty(); k++) if (buf[k] != 0xA6 || t[n + k] != 0xA6) bad = "writes outside the request";
        }
        if (bad.empty() && w.pos != expect + n && w.max_open <= 1 && w.pos < expect + n) bad = "took too few bytes from the device";
        expect += n;
        if (bad.empty() && !w.trouble.empty()) bad = w.trouble;
    }
    if (bad.empty() && w.max_open > 1) bad = "holds " + std::to_string(w.max_open) + " descriptors of the device open";
    dlclose(h);
    if (!w.injected && !large) c.nontrivial = false;
    c.hit(w.injected ? "faults-injected" : "no-fault");
    bool did[E_NKIND] = {};
    for (size_t i = 0; i < w.ri && i < w.reads.size(); i++) did[w.reads[i].e] = true;
    for (int i = 0; i < E_NKIND; i++) if (did[i]) c.hit(std::string("read/") + ev_name[i]);
    if (w.oi && !w.opens.empty()) c.hit("open/failed");
    W = nullptr;
    if (!bad.empty()) fail("randombytes %s", bad.c_str());
}

// Histories over threads and forked processes: every 8-byte word of every answer is a word of the device, and no word is
// delivered twice.
PROP(C11h) {
    World w;
    W = &w;
    w.seed = s.seed();
    std::string path = c.opt["random"];
    struct Shared { uint64_t pos, n; uint64_t word[1 << 15]; };
    static Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
    sh->pos = sh->n = 0;
    w.shared_pos = &sh->pos;
    w.next_fd = 1000;
    unsigned no = s.chance(40) ? (unsigned)s.range(1, 6) : 0, nr = (unsigned)s.draw(30);
    for (unsigned i = 0; i < no; i++) w.opens.push_back(open_errs[s.draw(7)]);
    for (unsigned i = 0; i < nr; i++) w.reads.push_back({(Ev)s.draw(E_NKIND - 1), s.seed()});
    // phases, each of requests by one thread, by several threads at once, or by a forked child
    struct Phase { unsigned kind, threads; std::vector<unsigned> req; };
    std::vector<Phase> ph;
    unsigned np = (unsigned)s.range(2, 5);
    std::string d;
    bool threads = false, forks = false;
    for (unsigned i = 0; i < np; i++) {
        Phase p;
        p.kind = (unsigned)s.draw(2);  // 0 fork, 1 alone, 2 threads
        p.threads = p.kind == 2 ? (unsigned)s.range(2, 6) : 1;
        unsigned k = (unsigned)s.range(1, 4);
        static const unsigned u[] = {48, 64, 80, 16, 24, 32, 8, 256, 1024, 4096};
        for (unsigned j = 0; j < k; j++) p.req.push_back(u[s.draw(9)]);
        threads |= p.kind == 2; forks |= p.kind == 0;
        d += p.kind == 0 ? "fork(" : p.kind == 1 ? "alone(" : "threads" + std::to_string(p.threads) + "(";
        for (unsigned q : p.req) d += std::to_string(q) + " ";
        d += ") ";
        ph.push_back(p);
    }
    w.pause = (unsigned)s.draw(5);
    c.add("%s; %u failing opens, %u read outcomes", d.c_str(), no, nr);
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); exit(3); }
    int (*rb)(unsigned char *, unsigned long long) = (int (*)(unsigned char *, unsigned long long))dlsym(h, "randombytes");
    if (!rb) { fprintf(stderr, "no randombytes\n"); exit(3); }
    static std::string bad;
    bad.clear();
    auto requests = [&](const std::vector<unsigned> &req) {
        for (unsigned n : req) {
            std::vector<uint64_t> buf(n / 8 + 2, 0xA6A6A6A6A6A6A6A6ull);
            int rc = rb((uint8_t *)(buf.data() + 1), n);
            M.lock();
            if (rc && bad.empty()) bad = "returned " + std::to_string(rc);
            if ((buf[0] != 0xA6A6A6A6A6A6A6A6ull || buf[n / 8 + 1] != 0xA6A6A6A6A6A6A6A6ull) && bad.empty()) bad = "writes outside the request";
            M.unlock();
            for (unsigned i = 0; i < n / 8; i++) {
                uint64_t at = __atomic_fetch_add(&sh->n, 1, __ATOMIC_SEQ_CST);
                if (at < (1 << 15)) sh->word[at] = buf[i + 1];
            }
        }
    };
    for (auto &p : ph) {
        if (p.kind == 1) requests(p.req);
        else if (p.kind == 2) {
            std::vector<std::thread> th;
            for (unsigned i = 0; i < p.threads; i++) th.emplace_back(requests, p.req);
            for (auto &t : th) t.join();
        } else {
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); exit(3); }
            if (pid == 0) { requests(p.req); _exit(bad.empty() ? 0 : 41); }
            int st;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (st && bad.empty()) bad = WIFEXITED(st) && WEXITSTATUS(st) == 41 ? "fails in a forked child" : "ends a forked child";
        }
    }
    if (bad.empty()) {
        std::unordered_map<uint64_t, uint64_t> where;
        for (uint64_t i = 0; i < sh->pos / 8; i++) where[mix64(w.seed ^ i)] = i;
        std::vector<int> used(sh->pos / 8 + 1);
        for (uint64_t i = 0; i < sh->n && i < (1 << 15) && bad.empty(); i++) {
            auto it = where.find(sh->word[i]);
            if (it == where.end()) bad = "delivers bytes that are not the device's";
            else if (used[it->second]++) bad = "delivers the same bytes of the device twice";
        }
    }
    dlclose(h);
    c.hit(threads && forks ? "threads and forks" : threads ? "threads" : forks ? "forks" : "one thread");
    c.nontrivial = threads || forks;
    W = nullptr;
    if (!bad.empty()) fail("randombytes %s", bad.c_str());
}
