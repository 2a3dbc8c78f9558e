/* Runtime for the emulated big-endian machine: the C library functions the portable sources may use. */
#include <stddef.h>
#include <stdint.h>

static long host(long nr, long a, long b, long c)
{
    register long v0 __asm__("$2") = nr;
    register long a0 __asm__("$4") = a;
    register long a1 __asm__("$5") = b;
    register long a2 __asm__("$6") = c;
    __asm__ volatile("syscall" : "+r"(v0) : "r"(a0), "r"(a1), "r"(a2) : "memory");
    return v0;
}
int randombytes(unsigned char *out, unsigned long long n) { return (int)host(1, (long)out, (long)n, 0); }
void abort(void) { host(2, 0, 0, 0); for (;;) {} }
void exit(int c) { host(2, c, 0, 0); for (;;) {} }
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)a; (void)f; (void)l; (void)fn; abort(); }
void *memcpy(void *d, const void *s, size_t n) { host(3, (long)d, (long)s, (long)n); return d; }
void *memmove(void *d, const void *s, size_t n) { host(3, (long)d, (long)s, (long)n); return d; }
void *memset(void *d, int c, size_t n) { host(4, (long)d, c, (long)n); return d; }
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (; n; n--, x++, y++) if (*x != *y) return *x - *y;
    return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static unsigned char heap[1 << 22] __attribute__((aligned(64)));
static size_t brk_;
void *malloc(size_t n) { n = (n + 63) & ~(size_t)63; if (brk_ + n > sizeof heap) return 0; void *p = heap + brk_; brk_ += n; return p; }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n)
{
    unsigned char *p = malloc(n);
    if (p && o) for (size_t i = 0; i < n && (unsigned char *)o + i < heap + sizeof heap; i++) p[i] = ((unsigned char *)o)[i];
    return p;
}
int posix_memalign(void **p, size_t a, size_t n) { (void)a; *p = malloc(n); return *p ? 0 : 12; }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
void *aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }

typedef union { uint64_t v; struct { uint32_t hi, lo; } s; } U;
uint64_t __ashldi3(uint64_t x, int n)
{
    U u; u.v = x;
    if (n >= 32) { u.s.hi = n == 32 ? u.s.lo : u.s.lo << (n - 32); u.s.lo = 0; }
    else if (n) { u.s.hi = (u.s.hi << n) | (u.s.lo >> (32 - n)); u.s.lo <<= n; }
    return u.v;
}
uint64_t __lshrdi3(uint64_t x, int n)
{
    U u; u.v = x;
    if (n >= 32) { u.s.lo = n == 32 ? u.s.hi : u.s.hi >> (n - 32); u.s.hi = 0; }
    else if (n) { u.s.lo = (u.s.lo >> n) | (u.s.hi << (32 - n)); u.s.hi >>= n; }
    return u.v;
}
int64_t __ashrdi3(int64_t x, int n)
{
    U u; u.v = (uint64_t)x;
    int32_t h = (int32_t)u.s.hi;
    if (n >= 32) { u.s.lo = (uint32_t)(n == 32 ? h : h >> (n - 32)); u.s.hi = (uint32_t)(h >> 31); }
    else if (n) { u.s.lo = (u.s.lo >> n) | (u.s.hi << (32 - n)); u.s.hi = (uint32_t)(h >> n); }
    return (int64_t)u.v;
}
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t *rem)
{
    uint64_t q = 0, r = 0;
    for (int i = 63; i >= 0; i--) {
        r = __ashldi3(r, 1) | (__lshrdi3(a, i) & 1);
        if (r >= b) { r -= b; q |= __ashldi3(1, i); }
    }
    if (rem) *rem = r;
    return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b)
{
    uint64_t q = __udivdi3(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b);
    return (a < 0) != (b < 0) ? -(int64_t)q : (int64_t)q;
}
int64_t __moddi3(int64_t a, int64_t b)
{
    uint64_t r = __umoddi3(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b);
    return a < 0 ? -(int64_t)r : (int64_t)r;
}
uint64_t __muldi3(uint64_t a, uint64_t b)
{
    U x, y, z; x.v = a; y.v = b;
    z.v = (uint64_t)x.s.lo * y.s.lo;
    z.s.hi += x.s.hi * y.s.lo + x.s.lo * y.s.hi;
    return z.v;
}
int __popcountsi2(unsigned x) { int n = 0; for (; x; x &= x - 1) n++; return n; }
uint32_t __bswapsi2(uint32_t x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
