#include <stddef.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
static unsigned char buf[256];
static size_t len, pos;
static int over;
void glue_set(const unsigned char *b, size_t n) { memcpy(buf, b, n > sizeof buf ? sizeof buf : n); len = n; pos = 0; over = 0; }
size_t glue_used(void) { return over ? (size_t)-1 : pos; }
int randombytes(unsigned char *out, unsigned long long n)
{
    for (unsigned long long i = 0; i < n; i++) {
        if (pos < len) out[i] = buf[pos++];
        else { out[i] = 0xA5; over = 1; }
    }
    return 0;
}
/* the libraries are linked with these names redirected (see lib/build.py) */
void *__wrap_malloc(size_t n) { return malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return realloc(p, n); }
void __wrap_free(void *p) { free(p); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return aligned_alloc(a, n); }
void *__wrap_memalign(size_t a, size_t n) { return memalign(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return posix_memalign(p, a, n); }
void *__wrap__mm_malloc(size_t n, size_t a) { return aligned_alloc(a, n); }
void __wrap__mm_free(void *p) { free(p); }
