#include "common_inc.h"
extern "C" int64_t mcs_index32(int64_t mode, int64_t atype, void *in, int64_t n, int64_t strlen, void *out) {
    return SortIndex32(NULL, 0, in, n, (int32_t *)out, (SORT_MODE)mode, (int)atype, strlen);
}
extern "C" int64_t mcs_index64(int64_t mode, int64_t atype, void *in, int64_t n, int64_t strlen, void *out) {
    return SortIndex64(NULL, 0, in, n, (int64_t *)out, (SORT_MODE)mode, (int)atype, strlen);
}
extern "C" int64_t mcs_indexcut64(int64_t mode, int64_t atype, void *in, int64_t n, int64_t strlen, void *out, void *cut, int64_t ncut) {
    return SortIndex64((int64_t *)cut, ncut, in, n, (int64_t *)out, (SORT_MODE)mode, (int)atype, strlen);
}
