#include "common_inc.h"
// records of two fields, 4 and 8 bytes
extern "C" int64_t mcs_rec(void *in, int64_t rows, void *out4, void *out8) {
    stRecarrayOffsets o[2] = { { (char *)out4, 0, 4 }, { (char *)out8, 4, 8 } };
    RecArrayToColMajor(o, (char *)in, rows, 2, 12);
    return 0;
}
