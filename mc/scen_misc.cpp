#include "common_inc.h"
extern "C" int64_t mcs_issorted(void *in, int64_t n, int64_t atype, int64_t itemsize) {
    return IsSorted(in, n, (int32_t)atype, itemsize);
}
extern "C" int64_t mcs_arange(int64_t atype, void *out, void *first, void *second, int64_t n, int64_t wake) {
    return ArangeFill((int)atype, (char *)out, first, second, n, (int32_t)wake);
}
