// Runtime of the schedule explorer.
//
// It is linked into the "mc" build of the module under test, in place of libtsan: the compiler calls a __tsan_* function before every
// memory access and for every atomic operation.  The threads the module creates become fibers of the one operating system thread, so
// that a schedule is a sequence of decisions taken here, and every execution can be repeated exactly.
//
// Memory classes: fiber stacks, the data arena and read-only sections are never scheduling points; every other 8 byte word the module
// touches is shadowed.  A word accessed by two fibers and written by at least one of them is "active": each access of an active word is
// a scheduling point.  The set of active words grows while exploring; whenever it grows the exploration starts again with the larger
// set, so a finished exploration has every access to every shared written word as a scheduling point.
//
// Data of the arena is not a scheduling point; instead a happens-before race detector (vector clocks carried by the active words) checks
// in every execution that two fibers never access the same byte, at least one writing it, without being ordered by accesses of active
// words.  When that holds nothing is missed by not switching between two data accesses; when it does not, it is reported.
//
// Explored: every choice of the next runnable fiber at every scheduling point with at most `bound` preemptions (depth first, stateless
// replay of the prefix, states that were reached before with at least the same remaining budget are not explored again).
#include <immintrin.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// the containers of the runtime itself do not use the malloc it defines for the module
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
template <class T> struct RA {
    typedef T value_type;
    RA() {}
    template <class U> RA(const RA<U> &) {}
    T *allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
    void deallocate(T *p, size_t) { __libc_free(p); }
    bool operator==(const RA &) const { return true; }
    bool operator!=(const RA &) const { return false; }
};
template <class T> using vec = std::vector<T, RA<T>>;
template <class K, class V> using hmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, RA<std::pair<const K, V>>>;
template <class K> using hset = std::unordered_set<K, std::hash<K>, std::equal_to<K>, RA<K>>;

typedef uint64_t u64;
typedef int64_t i64;
#define EX extern "C" __attribute__((visibility("default")))
#define NOINL __attribute__((noinline))

// ------------------------------------------------------------------ layout
static const size_t STACK = 512 << 10;
static const int MAXF = 24;
static char *g_stacks, *g_arena;
static const size_t ARENA = 256u << 20;      // low half: scenario buffers (python), high half: malloc during exploration
static size_t g_bump, g_bumpmax;
static struct { uintptr_t lo, hi; } g_ro[16];
static int g_nro;
static unsigned char *g_stackbits;

enum St { ST_NONE, ST_READY, ST_PAUSED, ST_TIMED, ST_FUTEX, ST_MUTEX, ST_DONE };
struct Fiber {
    void *sp;
    int st, main;
    void *(*fn)(void *);
    void *arg;
    u64 hist, pausever, firstread;    // firstread: version at the first read since the last pause
    void *wait;
    u64 queue;            // arrival number in a wait queue
    u64 spinver, spincnt;             // reads of active words since the last write
    // snapshot
    void *ssp;
    int sst;
    void *swait;
    u64 squeue;
    vec<char> simg;
};
static Fiber F[MAXF];
static int g_nf, g_nworkers, g_cur = -1, g_running;   // g_cur: running fiber, -1 = the explorer itself
static void *g_exsp;
static int g_exploring;
static u64 g_version, g_queue, g_memhash, g_steps, g_hooks;

// ------------------------------------------------------------------ results shared with python
struct Result {
    i64 kind;              // 0 ok 1 wrong result 2 late write 3 deadlock 4 livelock 5 crash 6 divergence 7 table full 8 write to released memory 11 data race
    i64 detail[6];
    i64 executions, steps, states, outcomes, choices, restarts, active, pruned, maxdepth, capped;
    i64 nsched;
    i64 sched[4096];
};
static Result *g_res;

// ------------------------------------------------------------------ hashing
static inline u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15u + (a << 6) + (a >> 2));
    x ^= x >> 29;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 32;
    return x;
}

// ------------------------------------------------------------------ shadow words
struct Word {
    uintptr_t a;            // address >> 3
    uint32_t fibers;        // who accessed it
    uint8_t written, active;
    uint32_t epoch;         // execution in which the old value was logged
    u64 old;
};
static vec<Word> g_tab;
static size_t g_tabmask;
static vec<uint32_t> g_undo;
static size_t g_nwords;
static uint32_t g_epoch = 1;
static int g_grew;
static i64 g_nactive;

static uint32_t word(uintptr_t a) {
    size_t h = (a * 0x9e3779b97f4a7c15ull) >> 20;
    for (;; h++) {
        Word &w = g_tab[h & g_tabmask];
        if (w.a == a) return h & g_tabmask;
        if (!w.a) {
            if (++g_nwords * 2 > g_tabmask) { g_res->kind = 7; _exit(97); }
            w.a = a;
            return h & g_tabmask;
        }
    }
}

static inline bool ignored(uintptr_t p) {
    if (p - (uintptr_t)g_arena < ARENA) return true;
    if (p - (uintptr_t)g_stacks < STACK * MAXF) return true;
    for (int i = 0; i < g_nro; i++)
        if (p - g_ro[i].lo < g_ro[i].hi - g_ro[i].lo) return true;
    return false;
}

static vec<uint32_t> g_pend;
static void flush_pending() {
    for (uint32_t i : g_pend) g_memhash += mix(g_tab[i].a, *(u64 *)(g_tab[i].a << 3));
    g_pend.clear();
}

static void point();
static void blocked();

// ------------------------------------------------------------------ races on data
static int g_race;
static u64 g_vc[MAXF][MAXF], g_clk[MAXF];
struct VC { u64 c[MAXF]; };
static hmap<uintptr_t, VC> g_wordvc;       // active words and mutexes
struct Cell { u64 clk : 48, fiber : 7, wr : 1, mask : 8; };
static Cell *g_cells;                      // 4 per 8 bytes of the arena
static void violation(int kind, i64 a, i64 b, i64 c, i64 d);

static void race_reset() {
    for (int i = 0; i < MAXF; i++) g_clk[i]++;
    for (int i = 0; i < MAXF; i++) {
        for (int j = 0; j < MAXF; j++) g_vc[i][j] = g_clk[j] - 1;
        g_vc[i][i] = g_clk[i];
    }
    g_wordvc.clear();
}
static void race_sync(uintptr_t a, bool wr) {
    VC &w = g_wordvc[a];
    u64 *v = g_vc[g_cur];
    for (int i = 0; i < MAXF; i++) if (w.c[i] > v[i]) v[i] = w.c[i];
    if (wr) {
        memcpy(w.c, v, sizeof w.c);
        v[g_cur] = ++g_clk[g_cur];
    }
}
static void race_pass(int from, int to) {
    for (int i = 0; i < MAXF; i++) if (g_vc[from][i] > g_vc[to][i]) g_vc[to][i] = g_vc[from][i];
    g_vc[from][from] = ++g_clk[from];
}
static void NOINL race_data(uintptr_t p, size_t n, bool wr) {
    uintptr_t o = p - (uintptr_t)g_arena, a = o >> 3, e = (o + n - 1) >> 3;
    const u64 *v = g_vc[g_cur];
    for (uintptr_t w = a; w <= e; w++) {
        unsigned m = 255;
        if (w == a) m &= 255u << (o & 7);
        if (w == e) m &= 255u >> (7 - ((o + n - 1) & 7));
        Cell *c = g_cells + w * 4;
        int put = -1;
        for (int k = 0; k < 4; k++) {
            if (!c[k].clk) { if (put < 0) put = k; break; }
            if (c[k].fiber == (unsigned)g_cur) {
                if (c[k].mask == m && c[k].wr >= wr && c[k].clk == v[g_cur]) { put = -2; break; }
                if ((c[k].mask & ~m) == 0 && c[k].wr <= wr) put = k;
            } else if (c[k].clk > v[c[k].fiber]) {
                if ((c[k].mask & m) && (c[k].wr || wr)) violation(11, -1, (w << 3), c[k].fiber * 2 + c[k].wr, g_cur * 2 + wr);
            } else if (put < 0) put = k;
        }
        if (put == -2) continue;
        if (put < 0) put = (w + g_clk[g_cur]) & 3;
        c[put].clk = v[g_cur]; c[put].fiber = g_cur; c[put].wr = wr; c[put].mask = m;
    }
}
static FILE *g_trace;
static int g_bumped;
static int g_datapoint;       // the running fiber accessed an active word and no shared data since then

// data of the scenario, or the stack of another fiber
static inline bool shared_data(uintptr_t p) {
    if (p - (uintptr_t)g_arena < ARENA) return true;
    uintptr_t s = p - (uintptr_t)g_stacks;
    return s < STACK * MAXF && (int)(s / STACK) != g_cur;
}

// one access of at most 8 aligned bytes
static void access_word(uintptr_t a, bool wr) {
    uint32_t i = word(a);
    Word *w = &g_tab[i];
    if (!g_exploring || g_cur < 0) return;
    w->fibers |= 1u << g_cur;
    if (wr) w->written = 1;
    if (!w->active && w->written && (w->fibers & (w->fibers - 1))) {
        w->active = 1;
        g_nactive++;
        g_grew = 1;
    }
    if (w->active) point();
    Fiber &f = F[g_cur];
    if (!f.firstread) f.firstread = g_version;
    if (wr) {
        if (w->epoch != g_epoch) {
            w->epoch = g_epoch;
            w->old = *(u64 *)(a << 3);
            g_undo.push_back(i);
        }
        for (uint32_t j : g_pend)
            if (j == i) goto pending;
        g_memhash -= mix(a, *(u64 *)(a << 3));
        g_pend.push_back(i);
    pending:
        g_version++;
        g_bumped = 1;
        f.spincnt = 0;
    }
    if (w->active) {
        if (g_race) race_sync(a, wr);
        u64 v = *(u64 *)(a << 3);
        if (g_trace) fprintf(g_trace, "  f%d %s %lx: %lx\n", g_cur, wr ? "write" : "read", (long)(a << 3), (long)v);
        f.hist = mix(f.hist, mix(a, v) + wr);
        g_datapoint = 1;
        if (!wr) {
            if (f.spincnt++ == 30) f.spinver = g_version;
            if (f.spincnt > 60) {         // spinning without a hint: wait for another fiber to write
                f.spincnt = 0;
                f.st = ST_PAUSED;
                f.pausever = f.spinver;
                f.firstread = 0;
                blocked();
            }
        }
    }
}

static void NOINL slow(uintptr_t p, size_t n, bool wr) {
    if (!g_exploring) return;
    uintptr_t a = p >> 3, e = (p + n - 1) >> 3;
    for (; a <= e; a++) access_word(a, wr);
}

// the first data access after an access of an active word: a block of data accesses is separated from both neighbours
static void NOINL data_point() {
    if (g_cur < 0) return;
    g_datapoint = 0;
    point();
    g_datapoint = 0;
    F[g_cur].hist = mix(F[g_cur].hist, 0xda7a);
}

static inline void acc(void *p, size_t n, bool wr) {
    g_hooks++;
    if (!g_exploring) return;
    uintptr_t s = (uintptr_t)p - (uintptr_t)g_stacks;
    if (s < STACK * MAXF) {
        // the stack of another fiber: words written from outside are shared words, the rest is data
        if (wr && g_cur >= 0 && (int)(s / STACK) != g_cur)
            for (uintptr_t w = s >> 3; w <= (s + n - 1) >> 3; w++)
                if (!(g_stackbits[w >> 3] & (1 << (w & 7)))) { g_stackbits[w >> 3] |= 1 << (w & 7); g_grew = 1; }
        if (g_stackbits[s >> 6] & (1 << ((s >> 3) & 7))) { slow((uintptr_t)p, n, wr); return; }
    }
    if (ignored((uintptr_t)p)) {
        if (g_datapoint && shared_data((uintptr_t)p)) data_point();
        if (g_race && g_cur >= 0 && (uintptr_t)p - (uintptr_t)g_arena < ARENA) race_data((uintptr_t)p, n, wr);
        return;
    }
    slow((uintptr_t)p, n, wr);
}

// ------------------------------------------------------------------ fibers
__attribute__((naked)) static void swap_sp(void **save, void *to) {
    asm volatile("push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15; sub $8,%rsp; stmxcsr (%rsp); mov %rsp,(%rdi); mov %rsi,%rsp;"
                 "ldmxcsr (%rsp); add $8,%rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp; ret");
}

static void to_explorer() {
    int c = g_cur;
    g_cur = -1;
    swap_sp(&F[c].sp, g_exsp);
}

static void switch_to(int n) {
    int c = g_cur;
    if (c == n) return;
    g_cur = n;
    int keep = g_datapoint;
    g_datapoint = 0;
    swap_sp(c < 0 ? &g_exsp : &F[c].sp, F[n].sp);
    g_datapoint = keep;
}

static void fiber_main() {
    Fiber &f = F[g_cur];
    f.fn(f.arg);
    F[g_cur].st = ST_DONE;
    g_version++;
    blocked();
    abort();
}

static char *stack_top(int i) { return g_stacks + STACK * (i + 1); }

static void prepare(int i, void *(*fn)(void *), void *arg) {
    Fiber &f = F[i];
    void **s = (void **)(stack_top(i) - 64);
    *--s = 0;
    *--s = (void *)fiber_main;
    for (int k = 0; k < 6; k++) *--s = 0;
    *--s = (void *)0x1f80;       // the floating point status of the thread
    f.sp = s;
    f.fn = fn;
    f.arg = arg;
    f.st = ST_READY;
    f.hist = i + 1;
    f.pausever = f.firstread = f.spincnt = 0;
    f.wait = 0;
}

// ------------------------------------------------------------------ exploration of the choices
struct Choice {
    u64 key;
    uint8_t n, cur, chosen;      // cur: the running fiber could continue (then option 0 is to continue it)
    uint8_t opt[MAXF];
    int budget;                  // preemptions left before this choice
};
static vec<Choice> g_tr;
static int g_budget, g_end;      // g_end: why the execution ended
enum { END_NONE, END_OK, END_PRUNED, END_DEADLOCK, END_LIVELOCK, END_DIVERGE, END_VIOLATION };
static u64 g_maxsteps = 400000;
static hmap<u64, int> g_seen;
static hset<u64> g_out;
static const i64 *g_script;
static i64 g_nscript;

static i64 g_totalsteps;
static int g_nosync;

static u64 state_key() {
    flush_pending();
    u64 k = mix(g_memhash, g_cur + 77);
    for (int i = 0; i < g_nf; i++) {
        Fiber &f = F[i];
        k = mix(k, f.hist);
        k = mix(k, f.st * 31 + (f.st == ST_PAUSED ? (g_version > f.pausever) : 0));
        if (f.st == ST_FUTEX || f.st == ST_MUTEX) {
            int before = 0;
            for (int j = 0; j < g_nf; j++)
                if (F[j].st == f.st && F[j].wait == f.wait && F[j].queue < f.queue) before++;
            k = mix(k, (u64)f.wait + before);
        }
    }
    return k;
}

static bool runnable(int i) {
    Fiber &f = F[i];
    return f.st == ST_READY || (f.st == ST_PAUSED && g_version > f.pausever);
}

static void NOINL end_execution(int why) {
    g_end = why;
    to_explorer();
    // (only after a normal end, when the state becomes the initial state of another exploration)
    if (why != END_OK) abort();
}

// choose who runs next; the running fiber is `g_cur` (which may be unable to go on)
static void decide() {
    if (++g_steps > g_maxsteps || g_hooks > 4000000000ull) end_execution(END_LIVELOCK);
    if (!g_exploring) return;
    int c = g_cur;
    bool cur = F[c].st == ST_READY;
    uint8_t opt[MAXF];
    int n = 0;
    if (cur) opt[n++] = c;
    for (int i = 0; i < g_nf; i++)
        if ((i != c || !cur) && runnable(i)) opt[n++] = i;
    if (!n) {
        for (int i = 0; i < g_nf; i++)
            if (F[i].st == ST_TIMED) opt[n++] = i;
    }
    if (!n) {
        bool done = true;
        for (int i = 0; i < g_nf; i++)
            if (F[i].main ? F[i].st != ST_DONE : (F[i].st != ST_FUTEX && F[i].st != ST_DONE)) done = false;
        end_execution(done ? END_OK : END_DEADLOCK);
        return;
    }
    int pick = 0;
    if (n > 1) {
        size_t k = g_tr.size();
        if (g_script) {
            if ((i64)k < g_nscript) {
                int want = (int)g_script[k];
                for (pick = 0; pick < n && opt[pick] != want; pick++);
                if (pick == n) end_execution(END_DIVERGE);
            }
            Choice ch{};
            ch.n = n;
            ch.chosen = pick;
            memcpy(ch.opt, opt, n);
            g_tr.push_back(ch);
        } else {
            Choice ch{};
            ch.key = state_key();
            ch.n = n;
            ch.cur = cur;
            memcpy(ch.opt, opt, n);
            ch.budget = g_budget;
            auto it = g_seen.find(ch.key);
            if (it != g_seen.end() && it->second >= g_budget) end_execution(END_PRUNED);
            g_seen[ch.key] = g_budget;
            g_tr.push_back(ch);
        }
    }
    if (cur && pick) g_budget--;
    int nx = opt[pick];
    if (F[nx].st == ST_PAUSED || F[nx].st == ST_TIMED) F[nx].st = ST_READY;
    if (g_trace && nx != c) fprintf(g_trace, "   -> fiber %d\n", nx);
    switch_to(nx);
}

static vec<Choice> g_path;     // the choices to replay
static void decide_replay();

static void point() { if (!g_nosync) decide_replay(); }
static void blocked() { decide_replay(); }

static void decide_replay() {
    if (g_script || !g_exploring || g_tr.size() >= g_path.size()) { decide(); return; }
    // inside the prefix: recompute the options, verify them, take the recorded one
    if (++g_steps > g_maxsteps) end_execution(END_LIVELOCK);
    int c = g_cur;
    bool cur = F[c].st == ST_READY;
    uint8_t opt[MAXF];
    int n = 0;
    if (cur) opt[n++] = c;
    for (int i = 0; i < g_nf; i++)
        if ((i != c || !cur) && runnable(i)) opt[n++] = i;
    if (n == 0) { decide(); return; }
    int pick = 0;
    if (n > 1) {
        Choice &ch = g_path[g_tr.size()];
        if (ch.n != n || memcmp(ch.opt, opt, n) || ch.key != state_key()) end_execution(END_DIVERGE);
        pick = ch.chosen;
        g_tr.push_back(ch);
    }
    if (cur && pick) g_budget--;
    int nx = opt[pick];
    if (F[nx].st == ST_PAUSED) F[nx].st = ST_READY;
    switch_to(nx);
}

// ------------------------------------------------------------------ waiting primitives
EX void mc_pause(void) {
    if (g_cur < 0 || !g_exploring) { sched_yield(); return; }
    Fiber &f = F[g_cur];
    f.st = ST_PAUSED;
    f.pausever = f.firstread ? f.firstread : g_version;
    f.firstread = 0;
    f.spincnt = 0;
    if (g_trace) fprintf(g_trace, "  f%d pause\n", g_cur);
    blocked();
}

static long mc_futex(int *addr, int op, int val) {
    op &= 127;
    slow((uintptr_t)addr, 4, false);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (*(volatile int *)addr != val) {
            if (g_trace) fprintf(g_trace, "  f%d futex wait %p: changed\n", g_cur, addr);
            errno = EAGAIN;
            return -1;
        }
        Fiber &f = F[g_cur];
        f.st = ST_FUTEX;
        f.wait = addr;
        f.queue = ++g_queue;
        if (g_trace) fprintf(g_trace, "  f%d futex wait %p: sleeps\n", g_cur, addr);
        if (!g_exploring) { to_explorer(); return 0; }
        blocked();
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int n = 0;
        do {      // the kernel wakes at least one waiter, in the order of their arrival
            int b = -1;
            for (int i = 0; i < g_nf; i++)
                if (F[i].st == ST_FUTEX && F[i].wait == addr && (b < 0 || F[i].queue < F[b].queue)) b = i;
            if (b < 0) break;
            F[b].st = ST_READY;
            F[b].wait = 0;
            if (g_race && g_exploring) race_pass(g_cur, b);
            n++;
        } while (n < val);
        if (g_trace) fprintf(g_trace, "  f%d futex wake %p %d: %d\n", g_cur, addr, val, n);
        g_version++;
        return n;
    }
    errno = ENOSYS;
    return -1;
}

static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }

EX long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && g_cur >= 0) return mc_futex((int *)a[0], (int)a[1], (int)a[2]);
    static long (*r)(long, ...) = (long (*)(long, ...))real("syscall");
    return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

EX int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *m) {
    const char *e = getenv("PNMC_CPUS");
    int n = e ? atoi(e) : 2;
    memset(m, 0, sz);
    for (int i = 0; i < n; i++) CPU_SET_S(i, sz, m);
    return 0;
}

EX int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (g_nf >= MAXF - 4) return EAGAIN;
    int i = g_nf++;
    prepare(i, fn, arg);
    F[i].main = 0;
    g_nworkers = g_nf;
    *t = (pthread_t)(i + 1);
    return 0;
}
EX int pthread_detach(pthread_t) { return 0; }
static void (*g_child[8])(void);
static int g_nchild;
EX int pthread_atfork(void (*)(void), void (*)(void), void (*child)(void)) {
    if (child && g_nchild < 8) g_child[g_nchild++] = child;
    return 0;
}
// what a forked child sees: the memory as it is, and no thread but the one that forked
static void do_fork() {
    point();
    for (int i = 0; i < g_nf; i++)
        if (i != g_cur) {
            F[i].st = ST_DONE;
            F[i].wait = 0;
            race_pass(i, g_cur);
        }
    g_version++;
    for (int i = 0; i < g_nchild; i++) g_child[i]();
}
static int timed() {
    if (g_cur < 0 || !g_exploring) return 0;
    F[g_cur].st = ST_TIMED;
    blocked();
    return 0;
}
EX int usleep(useconds_t) { return timed(); }
EX int nanosleep(const struct timespec *, struct timespec *) { return timed(); }
EX int sched_yield(void) { if (g_cur >= 0 && g_exploring) mc_pause(); return 0; }

// mutexes and condition variables, should the code use them
static hmap<void *, int> g_mutex;
EX int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_lock");
    if (g_cur < 0 || !g_exploring) return r(m);
    point();
    while (g_mutex.count(m)) {
        F[g_cur].st = ST_MUTEX;
        F[g_cur].wait = m;
        F[g_cur].queue = ++g_queue;
        blocked();
    }
    g_mutex[m] = g_cur;
    race_sync((uintptr_t)m, false);
    F[g_cur].hist = mix(F[g_cur].hist, (u64)m);
    return 0;
}
EX int pthread_mutex_trylock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_trylock");
    if (g_cur < 0 || !g_exploring) return r(m);
    point();
    int busy = g_mutex.count(m);
    F[g_cur].hist = mix(F[g_cur].hist, (u64)m + busy);
    if (busy) return EBUSY;
    g_mutex[m] = g_cur;
    race_sync((uintptr_t)m, false);
    return 0;
}
EX int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_unlock");
    if (g_cur < 0 || !g_exploring) return r(m);
    point();
    g_mutex.erase(m);
    race_sync((uintptr_t)m, true);
    for (int i = 0; i < g_nf; i++)
        if (F[i].st == ST_MUTEX && F[i].wait == m) { F[i].st = ST_READY; F[i].wait = 0; }
    g_version++;
    return 0;
}

// ------------------------------------------------------------------ memory
static i64 g_maxalloc;
static i64 g_nalloc, g_failat, g_failed;      // the allocation that fails (counted from 1), 0: none
static vec<char *> g_freed;
static void *arena_alloc(size_t n, size_t al) {
    if (++g_nalloc > g_maxalloc) g_maxalloc = g_nalloc;
    if (g_nalloc == g_failat) { g_failed = 1; return NULL; }
    if (al < 64) al = 64;
    g_bump = (g_bump + al - 1) & ~(al - 1);
    char *p = g_arena + ARENA / 2 + g_bump + 64;
    p = (char *)(((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1));
    g_bump = (p - (g_arena + ARENA / 2)) + n + 64;
    if (g_bump + 64 > ARENA / 2) return NULL;
    *(size_t *)(p - 16) = n;
    memset(p, 0xCD, n < 65536 ? n : 65536);
    return p;
}
static bool in_arena(void *p) { return (uintptr_t)p - (uintptr_t)g_arena < ARENA; }
EX void *mc_malloc(size_t n) { return g_exploring && g_cur >= 0 ? arena_alloc(n, 64) : malloc(n); }
EX void *mc_calloc(size_t n, size_t m) {
    if (!(g_exploring && g_cur >= 0)) return calloc(n, m);
    void *p = arena_alloc(n * m, 64);
    if (p) memset(p, 0, n * m);
    return p;
}
EX void *mc_realloc(void *p, size_t n) {
    if (!(g_exploring && g_cur >= 0)) return realloc(p, n);
    void *q = arena_alloc(n, 64);
    if (p && q) { size_t o = in_arena(p) ? ((size_t *)p)[-2] : n; memcpy(q, p, o < n ? o : n); }
    return q;
}
EX void *mc_aligned_alloc(size_t al, size_t n) { return g_exploring && g_cur >= 0 ? arena_alloc(n, al) : aligned_alloc(al, n); }
EX int mc_posix_memalign(void **p, size_t al, size_t n) {
    if (!(g_exploring && g_cur >= 0)) return posix_memalign(p, al, n);
    *p = arena_alloc(n, al);
    return *p ? 0 : ENOMEM;
}
EX void mc_free(void *p) {
    if (!p) return;
    if (!in_arena(p)) { free(p); return; }
    size_t n = ((size_t *)p)[-2];
    if (g_exploring) {
        if (g_race && g_cur >= 0 && n) race_data((uintptr_t)p, n, true);
        memset(p, 0xDD, n < 65536 ? n : 65536);
        g_freed.push_back((char *)p);
    }
}
void *operator new(size_t n) { return mc_malloc(n); }
void *operator new[](size_t n) { return mc_malloc(n); }
void operator delete(void *p) noexcept { mc_free(p); }
void operator delete[](void *p) noexcept { mc_free(p); }
void operator delete(void *p, size_t) noexcept { mc_free(p); }
void operator delete[](void *p, size_t) noexcept { mc_free(p); }
// (mcpre.h renames the functions the module calls)
EX void *mc_memset(void *p, int c, size_t n) {
    if (n) acc(p, n, true);
    return memset(p, c, n);
}
EX void *mc_memcpy(void *d, const void *s, size_t n) {
    if (n) { acc((void *)s, n, false); acc(d, n, true); }
    return memcpy(d, s, n);
}
EX void *mc_memmove(void *d, const void *s, size_t n) {
    if (n) { acc((void *)s, n, false); acc(d, n, true); }
    return memmove(d, s, n);
}

// ------------------------------------------------------------------ instrumentation hooks
#define RW(n) \
    EX void __tsan_read##n(void *p) { acc(p, n, false); } EX void __tsan_write##n(void *p) { acc(p, n, true); } \
    EX void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } EX void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
    EX void __tsan_volatile_read##n(void *p) { acc(p, n, false); } EX void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
    EX void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } EX void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_read_range(void *p, size_t n) { if (n) acc(p, n, false); }
EX void __tsan_write_range(void *p, size_t n) { if (n) acc(p, n, true); }
EX void __tsan_init(void) {}
EX void __tsan_func_entry(void *) {}
EX void __tsan_func_exit(void) {}
EX void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
EX void __tsan_vptr_read(void **p) { acc(p, 8, false); }
// a read-modify-write that leaves the value as it was does not count as a write that a waiting fiber has to look at
#define RMW(T, E) g_bumped = 0; acc((void *)p, sizeof(T), true); T o = *p; T w = (E); *p = w; if (w == o && g_bumped) g_version--;
#define ATOMIC(T, n) \
    EX T __tsan_atomic##n##_load(const volatile T *p, int) { acc((void *)p, sizeof(T), false); return *p; } \
    EX void __tsan_atomic##n##_store(volatile T *p, T v, int) { acc((void *)p, sizeof(T), true); *p = v; } \
    EX T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { RMW(T, v) return o; } \
    EX T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { RMW(T, (T)(o + v)) return o; } \
    EX T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { RMW(T, (T)(o - v)) return o; } \
    EX T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { RMW(T, (T)(o & v)) return o; } \
    EX T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { RMW(T, (T)(o | v)) return o; } \
    EX T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { RMW(T, (T)(o ^ v)) return o; } \
    EX T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { RMW(T, (T)~(o & v)) return o; } \
    EX int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { \
        T e = *c; RMW(T, o == e ? v : o) if (o == e) return 1; *c = o; return 0; } \
    EX int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { \
        T e = *c; RMW(T, o == e ? v : o) if (o == e) return 1; *c = o; return 0; } \
    EX T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) { RMW(T, o == c ? v : o) return o; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(u64, 64)
EX void __tsan_atomic_thread_fence(int) {}
EX void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ scenarios
typedef void (*loopfn)(char **, const long *, const long *, void *);
struct Op {
    i64 kind;                // 0: inner loop  1: int64 f(6 integer/pointer arguments ...)  (result compared with n)
    void *fn, *data;
    void *args[8];
    i64 steps[4];
    i64 n;
    void *out;               // compared with `expect` right after the operation, then overwritten
    void *expect;
    i64 outlen;
    i64 fiber;               // submitting thread 0, 1, ...
    i64 retire;              // overwrite `out` afterwards; nothing may be written there any more
    i64 flags;               // >= 0: floating point errors (1 invalid, 4 divide by zero) the operation leaves in its thread
};
struct Init { void *dst; const void *src; i64 len; i64 fill; };   // before every execution: copy, or fill when src is 0

static Op *g_ops;
static i64 g_nops;
static Init *g_init;
static i64 g_ninit;

static void violation(int kind, i64 a, i64 b, i64 c, i64 d) {
    if (g_res->kind == 0) {
        g_res->kind = kind;
        g_res->detail[0] = a;
        g_res->detail[1] = b;
        g_res->detail[2] = c;
        g_res->detail[3] = d;
    }
    end_execution(END_VIOLATION);
}

static void NOINL scribble() {
    volatile char *b = (volatile char *)__builtin_alloca(16384);
    for (int i = 0; i < 16384; i += 8) *(volatile u64 *)(b + i) = 0xA5A5A5A5A5A5A5A5ull;
}

static void NOINL run_op(Op &o) {
    if (o.kind == 2) do_fork();
    else if (o.kind == 0) {
        char *a[4];
        long d[1] = {(long)o.n}, s[4];
        for (int i = 0; i < 4; i++) { a[i] = (char *)o.args[i]; s[i] = (long)o.steps[i]; }
        _mm_setcsr(0x1f80);
        ((loopfn)o.fn)(a, d, s, o.data);
        i64 fe = _mm_getcsr() & 5;
        if (o.flags >= 0 && fe != o.flags) violation(10, &o - g_ops, 0, fe, o.flags);
    } else {
        typedef i64 (*f8)(void *, void *, void *, void *, void *, void *, void *, void *);
        i64 r = ((f8)o.fn)(o.args[0], o.args[1], o.args[2], o.args[3], o.args[4], o.args[5], o.args[6], o.args[7]);
        if (g_failed && r) { o.steps[3] = 1; return; }       // an operation may fail when it gets no memory
        if (o.steps[0] && (o.steps[0] == 2 ? (i64)(int)r : r) != o.steps[1]) violation(1, &o - g_ops, -1, r, o.steps[1]);
    }
}

static void check_op(Op &o) {
    if (g_race && o.outlen && !o.steps[3]) race_data((uintptr_t)o.out, o.outlen, true);
    if (!o.steps[3] && o.outlen && memcmp(o.out, o.expect, o.outlen)) {
        i64 i = 0;
        while (((uint8_t *)o.out)[i] == ((uint8_t *)o.expect)[i]) i++;
        violation(1, &o - g_ops, i, ((uint8_t *)o.out)[i], ((uint8_t *)o.expect)[i]);
    }
    if (o.retire) memset(o.out, 0xA5, o.outlen);
}

static u64 g_opdone;          // operations that ended (a forked child does not end those of the other threads)
static void *submitter(void *arg) {
    i64 who = (i64)arg;
    for (i64 i = 0; i < g_nops; i++)
        if (g_ops[i].fiber == who) {
            run_op(g_ops[i]);
            int keep = g_exploring;
            g_exploring = 0;
            scribble();
            g_exploring = keep;
            keep = g_nosync;
            g_nosync = 1;
            check_op(g_ops[i]);
            g_nosync = keep;
            g_opdone |= 1ull << i;
            point();
        }
    return NULL;
}

static sigjmp_buf g_jmp;
static volatile int g_armed;
static void on_crash(int sig, siginfo_t *si, void *) {
    if (!g_armed) { signal(sig, SIG_DFL); raise(sig); return; }
    g_res->kind = 5;
    g_res->detail[0] = sig;
    g_res->detail[1] = (i64)si->si_addr;
    g_res->detail[2] = g_cur;
    siglongjmp(g_jmp, 1);
}

static int cb_phdr(struct dl_phdr_info *info, size_t, void *) {
    uintptr_t me = (uintptr_t)(void *)&cb_phdr;
    bool mine = false;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &p = info->dlpi_phdr[i];
        if (p.p_type == PT_LOAD && me - (info->dlpi_addr + p.p_vaddr) < p.p_memsz) mine = true;
    }
    if (mine)
        for (int i = 0; i < info->dlpi_phnum; i++) {
            auto &p = info->dlpi_phdr[i];
            if (p.p_type == PT_LOAD && !(p.p_flags & PF_W) && g_nro < 16) {
                g_ro[g_nro].lo = info->dlpi_addr + p.p_vaddr;
                g_ro[g_nro++].hi = info->dlpi_addr + p.p_vaddr + p.p_memsz;
            }
        }
    return 0;
}

__attribute__((constructor)) static void start() {
    g_stacks = (char *)mmap(0, STACK * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXF; i++) mprotect(g_stacks + STACK * i, 4096, PROT_NONE);
    g_stackbits = (unsigned char *)mmap(0, STACK * MAXF / 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dl_iterate_phdr(cb_phdr, 0);
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
}

// ---- interface for python
EX char *mc_arena(void) { return g_arena; }
EX int mc_workers(void) { return g_nworkers; }

static void snapshot() {
    for (int i = 0; i < g_nworkers; i++) {
        Fiber &f = F[i];
        f.ssp = f.sp;
        f.sst = f.st;
        f.swait = f.wait;
        f.squeue = f.queue;
        f.simg.assign((char *)f.sp - 256, stack_top(i));
    }
}

// run every worker, in the given order, until it waits for work; then this is the initial state
EX int mc_setup(const i64 *order, i64 n) {
    g_tab.resize(1 << 20);
    g_tabmask = g_tab.size() - 1;
    for (i64 k = 0; k < n; k++) {
        int i = (int)order[k];
        if (F[i].st == ST_READY) switch_to(i);
        if (F[i].st != ST_FUTEX && F[i].st != ST_DONE) return -1;
    }
    snapshot();
    return 0;
}
// threads that never run (a forked child)
EX void mc_dead(const i64 *who, i64 n) {
    for (i64 k = 0; k < n; k++) F[who[k]].st = ST_DONE;
    snapshot();
}
EX void mc_race(i64 on) {
    g_race = (int)on;
    if (on && !g_cells) g_cells = (Cell *)mmap(0, ARENA / 8 * 4 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
EX void mc_failalloc(i64 k) { g_failat = k; }
EX i64 mc_allocs_max(void) { return g_maxalloc; }

static void restore() {
    for (uint32_t i : g_undo) *(u64 *)(g_tab[i].a << 3) = g_tab[i].old;
    g_undo.clear();
    g_epoch++;
    g_pend.clear();
    g_memhash = 0;
    g_version = 1;
    race_reset();
    g_steps = g_hooks = 0;
    g_queue = 1000;
    g_bump = 0;
    g_nalloc = g_failed = 0;
    g_freed.clear();
    for (i64 i = 0; i < g_nops; i++) if (g_ops[i].kind) g_ops[i].steps[3] = 0;
    g_datapoint = 0;
    g_mutex.clear();
    for (int i = 0; i < g_nworkers; i++) {
        Fiber &f = F[i];
        f.sp = f.ssp;
        f.st = f.sst;
        f.wait = f.swait;
        f.queue = f.squeue;
        f.hist = i + 1;
        f.pausever = f.firstread = f.spincnt = 0;
            memcpy((char *)f.sp - 256, f.simg.data(), f.simg.size());
    }
}

static int run_once(int nmain, int bound) {
    int keep = g_exploring;
    g_exploring = 0;
    restore();
    for (i64 i = 0; i < g_ninit; i++) {
        if (g_init[i].src) memcpy(g_init[i].dst, g_init[i].src, g_init[i].len);
        else memset(g_init[i].dst, (int)g_init[i].fill, g_init[i].len);
    }
    g_nf = g_nworkers;
    g_opdone = 0;
    for (int i = 0; i < nmain; i++) {
        int k = g_nf++;
        memset(stack_top(k) - 49152, 0xEE, 49152);
        prepare(k, submitter, (void *)(i64)i);
        F[k].main = 1;
    }
    g_exploring = keep;
    g_tr.clear();
    g_budget = bound;
    g_end = END_NONE;
    g_grew = 0;
    g_armed = 1;
    if (sigsetjmp(g_jmp, 1) == 0) {
        // the first submitter starts; the others are chosen at its first scheduling point
        switch_to(g_nworkers);
    } else {
        g_cur = -1;
        g_end = END_VIOLATION;
    }
    g_armed = 0;
    keep = g_exploring;
    g_exploring = 0;
    if (g_end == END_OK) {
        for (i64 i = 0; i < g_nops; i++)
            if ((g_opdone >> i & 1) && g_ops[i].retire && g_ops[i].outlen)
                for (i64 j = 0; j < g_ops[i].outlen; j++)
                    if (((uint8_t *)g_ops[i].out)[j] != 0xA5) {
                        if (!g_res->kind) {
                            g_res->kind = 2;
                            g_res->detail[0] = i;
                            g_res->detail[1] = j;
                            g_res->detail[2] = ((uint8_t *)g_ops[i].out)[j];
                        }
                        g_end = END_VIOLATION;
                        goto out;
                    }
        for (char *p : g_freed) {
            size_t n = ((size_t *)p)[-2];
            for (size_t j = 0; j < n && j < 65536; j++)
                if ((uint8_t)p[j] != 0xDD && !g_res->kind) {
                    g_res->kind = 8;
                    g_res->detail[0] = -1;
                    g_res->detail[1] = j;
                    g_end = END_VIOLATION;
                    goto out;
                }
        }
    }
out:
    if (g_end == END_DEADLOCK) {
        g_res->kind = 3;
        for (int i = 0; i < 4 && i < g_nf; i++) g_res->detail[i] = F[g_nf - 1 - i].st;
    }
    if (g_end == END_LIVELOCK) g_res->kind = 4;
    if (g_end == END_DIVERGE) g_res->kind = 6;
    g_exploring = keep;
    g_totalsteps += g_steps;
    return g_end;
}

static void set_signals(bool on) {
    static struct sigaction old[4];
    int s[4] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL};
    for (int i = 0; i < 4; i++) {
        struct sigaction sa = {};
        sa.sa_sigaction = on_crash;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        if (on) sigaction(s[i], &sa, &old[i]);
        else sigaction(s[i], &old[i], 0);
    }
}

// Explore.  Returns g_res->kind.  max_exec 0: no limit.  seconds 0: no limit.
EX i64 mc_explore(Op *ops, i64 nops, Init *init, i64 ninit, i64 nmain, i64 bound, i64 max_exec, double seconds, Result *res) {
    g_ops = ops; g_nops = nops; g_init = init; g_ninit = ninit; g_res = res;
    memset(res, 0, sizeof *res);
    set_signals(true);
    g_script = NULL;
    for (auto &w : g_tab) { w.fibers = 0; w.written = 0; w.active = 0; }
    g_nactive = 0;
    memset(g_stackbits, 0, STACK * MAXF / 64);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
again:
    g_seen.clear();
    g_out.clear();
    g_path.clear();
    g_totalsteps = 0;
    res->executions = res->choices = res->pruned = res->maxdepth = 0;
    for (;;) {
        if (getenv("PNMC_DBG")) { clock_gettime(CLOCK_MONOTONIC, &t1); fprintf(stderr, "%.3f exec %ld restarts %ld active %ld steps %ld hooks %ld trace %zu states %zu\n", t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9, (long)res->executions, (long)res->restarts, (long)g_nactive, (long)g_steps, (long)g_hooks, g_tr.size(), g_seen.size()); }
        g_exploring = 1;
        int e = run_once((int)nmain, (int)bound);
        g_exploring = 0;
        res->executions++;
        if ((i64)g_tr.size() > res->maxdepth) res->maxdepth = g_tr.size();
        if (e == END_OK) {
            u64 h = 0;
            for (int i = 0; i < g_nf; i++) h = mix(h, F[i].hist);
            g_out.insert(h);
        } else if (e == END_PRUNED) res->pruned++;
        else {
            if (g_grew) {         // the violation is looked for again, with every scheduling point of this execution in place
                memset(res->detail, 0, sizeof res->detail);
                res->kind = 0;
                res->restarts++;
                goto again;
            }
            res->nsched = 0;
            for (auto &c : g_tr)
                if (res->nsched < 4096) res->sched[res->nsched++] = c.opt[c.chosen];
            break;
        }
        if (g_grew) {
            res->restarts++;
            goto again;
        }
        // next: the deepest choice that has another option within the budget
        g_path = g_tr;
        bool more = false;
        while (!g_path.empty()) {
            Choice &c = g_path.back();
            int cost = c.cur ? 1 : 0;
            if (c.chosen + 1 < c.n && cost <= c.budget) {
                c.chosen++;
                more = true;
                break;
            }
            g_path.pop_back();
        }
        if (!more) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((max_exec && res->executions >= max_exec) || (seconds > 0 && t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > seconds) ||
            g_seen.size() > 40000000) {
            res->capped = 1;
            break;
        }
    }
    res->steps = g_totalsteps;
    res->states = g_seen.size();
    res->outcomes = g_out.size();
    res->active = g_nactive;
    g_exploring = 0;
    restore();
    set_signals(false);
    return res->kind;
}

// run one schedule (list of fibers chosen at the points with more than one runnable fiber), with the active words of the last exploration
EX i64 mc_replay(Op *ops, i64 nops, Init *init, i64 ninit, i64 nmain, const i64 *sched, i64 nsched, const char *trace, Result *res) {
    g_ops = ops; g_nops = nops; g_init = init; g_ninit = ninit; g_res = res;
    memset(res, 0, sizeof *res);
    set_signals(true);
    g_script = sched;
    g_nscript = nsched;
    g_trace = trace ? fopen(trace, "w") : NULL;
    g_exploring = 1;
    run_once((int)nmain, 1 << 20);
    g_exploring = 0;
    u64 h = 0;
    for (int i = 0; i < g_nf; i++) h = mix(h, F[i].hist);
    res->detail[5] = (i64)h;
    res->steps = g_steps;
    if (g_trace) fclose(g_trace);
    g_trace = NULL;
    g_script = NULL;
    restore();
    set_signals(false);
    return res->kind;
}

// the active words, to repeat a schedule in another process with the same scheduling points
EX i64 mc_active(i64 *out, i64 max) {
    i64 n = 0;
    for (auto &w : g_tab)
        if (w.active && n < max) out[n++] = (i64)(w.a << 3);
    return n;
}

// make the state after running the operations `times` times, with the default schedule, the new initial state
EX i64 mc_warm(Op *ops, i64 nops, Init *init, i64 ninit, i64 times, Result *res) {
    g_ops = ops; g_nops = nops; g_init = init; g_ninit = ninit; g_res = res;
    memset(res, 0, sizeof *res);
    static const i64 none[1] = {0};
    set_signals(true);
    for (i64 t = 0; t < times; t++) {
        g_script = none;
        g_nscript = 0;
        g_exploring = 1;
        int e = run_once(1, 0);
        g_exploring = 0;
        g_script = NULL;
        if (e != END_OK) { set_signals(false); return res->kind ? res->kind : 9; }
        g_undo.clear();
        g_nf = g_nworkers;
        snapshot();
    }
    set_signals(false);
    return 0;
}
