// what thread_enable/thread_disable/thread_setworkers/thread_zigzag do, while other threads have operations running
#include "common_inc.h"
#include "threads.h"
extern "C" int64_t mcs_setting(int64_t what, int64_t value) {
    if (what == 0) THREADER->NoThreading = (BOOL)value;
    if (what == 1) THREADER->SetFutexWakeup((int)value);
    if (what == 2) THREADER->GlobalWorkerParams.ZigZag = (int32_t)value;
    return 0;
}
