/* force-included into every translation unit of the "mc" build: these calls become visible to the explorer */
#pragma once
#ifdef __cplusplus
#include <cstdlib>
#include <cstring>
#include <memory>
#include <algorithm>
#include <vector>
#include <string>
extern "C" {
#else
#include <stdlib.h>
#include <string.h>
#endif
#include <x86intrin.h>
void *mc_malloc(size_t);
void *mc_calloc(size_t, size_t);
void *mc_realloc(void *, size_t);
void *mc_aligned_alloc(size_t, size_t);
int mc_posix_memalign(void **, size_t, size_t);
void mc_free(void *);
void *mc_memset(void *, int, size_t);
void *mc_memcpy(void *, const void *, size_t);
void *mc_memmove(void *, const void *, size_t);
void mc_pause(void);
#ifdef __cplusplus
}
namespace std {
using ::mc_malloc; using ::mc_calloc; using ::mc_realloc; using ::mc_aligned_alloc; using ::mc_free; using ::mc_memset; using ::mc_memcpy;
using ::mc_memmove;
}
#endif
#define malloc mc_malloc
#define calloc mc_calloc
#define realloc mc_realloc
#define free mc_free
#define aligned_alloc mc_aligned_alloc
#define posix_memalign mc_posix_memalign
#define memset mc_memset
#define memcpy mc_memcpy
#define memmove mc_memmove
#define _mm_pause mc_pause
#define __builtin_ia32_pause mc_pause
