#include "common_inc.h"
extern "C" int64_t mcs_sort(int64_t mode, int64_t atype, void *in, int64_t n, int64_t itemsize, void *out) {
    return Sort((SORT_MODE)mode, (int)atype, in, n, itemsize, itemsize, out, itemsize);
}
