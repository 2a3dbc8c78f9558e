#pragma once
#include <stddef.h>
void *malloc(size_t);
void *calloc(size_t, size_t);
void *aligned_alloc(size_t, size_t);
void *realloc(void *, size_t);
int posix_memalign(void **, size_t, size_t);
void free(void *);
void abort(void);
void exit(int);
