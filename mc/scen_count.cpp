// the pool itself, without any numerics on top
#include "common_inc.h"
#include "threads.h"

// every index 0..n-1 exactly once: out[i] is incremented
static int64_t one(void *arg, int core, int64_t index) {
    ((unsigned char *)arg)[index]++;
    return 1;
}
extern "C" int64_t mcs_count(int64_t n, void *out, int64_t wake) {
    THREADER->DoMultiThreadedWork((int)n, one, out, (int32_t)wake);
    return 0;
}

static int64_t part(void *arg, int core, int64_t start, int64_t length) {
    unsigned char *p = (unsigned char *)arg;
    for (int64_t i = start; i < start + length; i += 64) p[i]++;
    return 1;
}
extern "C" int64_t mcs_chunk(int64_t n, void *out, int64_t wake) {
    THREADER->DoMultiThreadedChunkWork(n, part, out, (int32_t)wake);
    return 0;
}

// a callback that starts parallel work of its own ("threading inside threading")
struct Nested { unsigned char *out; int64_t inner; };
static int64_t inner(void *arg, int core, int64_t index) {
    ((unsigned char *)arg)[index]++;
    return 1;
}
static int64_t outer(void *arg, int core, int64_t index) {
    Nested *n = (Nested *)arg;
    THREADER->DoMultiThreadedWork((int)n->inner, inner, n->out + index * n->inner);
    return 1;
}
extern "C" int64_t mcs_nested(int64_t n, int64_t m, void *out) {
    Nested a = { (unsigned char *)out, m };
    THREADER->DoMultiThreadedWork((int)n, outer, &a);
    return 0;
}
