#include <fenv.h>
/* Exhaustive differential driver for numpy inner loops.
 *
 * A "loop" is the (function, data) pair numpy calls for one dtype signature of
 * one ufunc.  The driver calls the loop that numpy had before pnumpy was
 * imported (oracle) and the one installed by pnumpy on identical memory images,
 * for every element of a finite case space, and compares the complete output
 * image (elements, gaps between strided elements, canaries around it) and
 * checks that the inputs are unchanged.  Operands lie between two PROT_NONE
 * pages, so an access outside the operand's pages faults; the process's parent
 * reads the case that was running from a shared status page.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <numpy/ufuncobject.h>
#include <sys/mman.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>

typedef void (*loopf)(char **, const npy_intp *, const npy_intp *, void *);

static PyObject *py_loops(PyObject *self, PyObject *o)
{
    PyUFuncObject *u = (PyUFuncObject *)o;
    PyObject *l = PyList_New(0);
    for (int i = 0; i < u->ntypes; i++) {
        PyObject *t = PyList_New(0);
        for (int k = 0; k < u->nargs; k++) {
            PyObject *v = PyLong_FromLong(u->types[i * u->nargs + k]);
            PyList_Append(t, v);
            Py_DECREF(v);
        }
        PyObject *e = Py_BuildValue("(NKK)", t, (unsigned long long)(uintptr_t)u->functions[i],
                                    (unsigned long long)(uintptr_t)(u->data ? u->data[i] : NULL));
        PyList_Append(l, e);
        Py_DECREF(e);
    }
    return l;
}

/* ------------------------------------------------------------------ */
#define NB 3
typedef struct { char *base; size_t size; } gbuf; /* usable pages between guards */
static gbuf work[NB], ref[NB], pris[NB];
static char *canon[NB];
static size_t cap;
static volatile int64_t *status; /* 64 int64 shared with the parent */

static char *galloc(size_t sz)
{
    char *p = mmap(NULL, sz + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    if (mprotect(p + 4096, sz, PROT_READ | PROT_WRITE)) return NULL;
    return p + 4096;
}

static PyObject *py_init(PyObject *self, PyObject *a)
{
    unsigned long long st; unsigned long long c;
    if (!PyArg_ParseTuple(a, "KK", &st, &c)) return NULL;
    status = (int64_t *)(uintptr_t)st;
    cap = (c + 4095) & ~(size_t)4095;
    for (int i = 0; i < NB; i++) {
        work[i].base = galloc(cap); ref[i].base = galloc(cap); pris[i].base = galloc(cap);
        canon[i] = galloc(cap); if (!canon[i]) return PyErr_NoMemory();
        if (!work[i].base || !ref[i].base || !pris[i].base) return PyErr_NoMemory();
    }
    Py_RETURN_NONE;
}

/* kind of comparison of an output element */
enum { CMP_BITS = 0, CMP_FLOAT = 1, CMP_ULP = 2, CMP_FZERO = 3, CMP_NONE = 4 };

static int64_t ordf(float f) { int32_t i; memcpy(&i, &f, 4); return i < 0 ? (int64_t)INT32_MIN - i : i; }
static __int128 ordd(double f) { int64_t i; memcpy(&i, &f, 8); return i < 0 ? (__int128)INT64_MIN - i : i; }

/* 0 = agree */
static int eldiff(const char *a, const char *b, int sz, int mode, double tol, double atol)
{
    if (!memcmp(a, b, sz) || mode == CMP_NONE) return 0;
    if (mode == CMP_BITS) return 1;
    if (sz == 4) {
        float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4);
        if (x != x && y != y) return 0;
        if (x != x || y != y) return 1;
        if (mode == CMP_FZERO && x == y) return 0;
        if (mode == CMP_ULP) {
            if (x == 0 && y == 0) return tol < 1;
            if (isinf(x) || isinf(y)) { if (!(tol >= 1)) return 1;
                /* an overflow on one side only counts as the next representable step */
                int64_t d = ordf(x) - ordf(y); if (d < 0) d = -d; return !(d <= (int64_t)tol); }
            if (fabs((double)x - (double)y) <= atol) return 0;
            int64_t d = ordf(x) - ordf(y); if (d < 0) d = -d;
            return !(d <= (int64_t)tol);
        }
        return 1;
    }
    if (sz == 8) {
        double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8);
        if (x != x && y != y) return 0;
        if (x != x || y != y) return 1;
        if (mode == CMP_FZERO && x == y) return 0;
        if (mode == CMP_ULP) {
            if (x == 0 && y == 0) return tol < 1;
            if (fabs(x - y) <= atol) return 0;
            __int128 d = ordd(x) - ordd(y); if (d < 0) d = -d;
            return !(d <= (__int128)tol);
        }
        return 1;
    }
    if (sz == 16) {
        long double x, y; memcpy(&x, a, 16); memcpy(&y, b, 16);
        if (x != x && y != y) return 0;
        if (!memcmp(a, b, 10)) return 0;
        if (mode == CMP_FZERO && x == y) return 0;
        return 1;
    }
    return 1;
}

typedef struct {
    loopf fo, fh; void *dd, *dh;
} pair;

/* elementwise(spec dict) -> None | tuple describing the first disagreement
 *
 * fo,do,fh,dh : oracle and hooked loop
 * nin, isz[2], osz
 * pools: bytes for each input (k*isz)
 * lens  : int64 array
 * pats  : int64 array (npat,3) strides in bytes  (s1, s2, so)
 * offs  : int64 array (noff,3) distance (bytes) between operand end and guard
 * alias : 0 none, 1 out is in1, 2 out is in2, 3 in2 is in1 (same pointer), 4 all the same,
 *         5 accumulate (in1 = out one step behind)
 * phase : int64 list, rotations of the pools
 * mode,tol
 */
static PyObject *py_elementwise(PyObject *self, PyObject *args)
{
    unsigned long long fo, dd, fh, dh;
    int nin, isz1, isz2, osz, alias, mode; double tol, atol;
    Py_buffer p1, p2, lens, pats, offs, phs;
    if (!PyArg_ParseTuple(args, "KKKKiiiiy*y*y*y*y*y*iidd", &fo, &dd, &fh, &dh, &nin, &isz1, &isz2, &osz,
                          &p1, &p2, &lens, &pats, &offs, &phs, &alias, &mode, &tol, &atol))
        return NULL;
    loopf FO = (loopf)(uintptr_t)fo, FH = (loopf)(uintptr_t)fh;
    void *DO = (void *)(uintptr_t)dd, *DH = (void *)(uintptr_t)dh;
    int64_t nl = lens.len / 8, npat = pats.len / 24, noff = offs.len / 24, nph = phs.len / 8;
    const int64_t *L = lens.buf, *P = pats.buf, *O = offs.buf, *PH = phs.buf;
    int64_t k1 = p1.len / isz1, k2 = nin > 1 ? p2.len / isz2 : 1;
    int isz[3] = { isz1, nin > 1 ? isz2 : osz, osz };
    int64_t evals = 0, nontrivial = 0;
    PyObject *res = NULL;
    for (int64_t il = 0; il < nl && !res; il++)
    for (int64_t ip = 0; ip < npat && !res; ip++)
    for (int64_t io = 0; io < noff && !res; io++)
    for (int64_t ih = 0; ih < nph && !res; ih++) {
        int64_t n = L[il], ph = PH[ih];
        int nop = nin + 1;
        int64_t st[3], off[3];
        if (nin == 2) { st[0] = P[ip*3]; st[1] = P[ip*3+1]; st[2] = P[ip*3+2]; off[0] = O[io*3]; off[1] = O[io*3+1]; off[2] = O[io*3+2]; }
        else { st[0] = P[ip*3]; st[1] = P[ip*3+2]; st[2] = 0; off[0] = O[io*3]; off[1] = O[io*3+2]; off[2] = 0; }
        int oi = nin; /* index of the output */
        int sz[3]; sz[0] = isz1; if (nin == 2) { sz[1] = isz2; sz[2] = osz; } else { sz[1] = osz; sz[2] = 0; }
        /* which buffer each operand lives in */
        int bufof[3] = { 0, 1, 2 };
        int64_t extra = 0;
        if (alias == 1) { bufof[oi] = 0; st[oi] = st[0]; off[oi] = off[0]; }
        if (alias == 2) { bufof[oi] = 1; st[oi] = st[1]; off[oi] = off[1]; }
        if (alias == 3) { bufof[1] = 0; st[1] = st[0]; off[1] = off[0]; }
        if (alias == 4) { bufof[1] = 0; st[1] = st[0]; off[1] = off[0]; bufof[oi] = 0; st[oi] = st[0]; off[oi] = off[0]; }
        if (alias == 5) { bufof[0] = oi; st[0] = st[oi]; off[0] = off[oi]; extra = 1; }
        /* placement */
        char *wp[3], *rp[3]; char *wl[3], *rl[3]; size_t img[3];
        int bad = 0;
        for (int k = 0; k < nop; k++) {
            int64_t as = st[k] < 0 ? -st[k] : st[k];
            int64_t cnt = n + ((bufof[k] == oi && alias == 5) ? 1 : 0);
            int64_t span = cnt > 0 ? (cnt - 1) * as + sz[k] : st[k] == 0 ? sz[k] : 0; /* a broadcast operand exists even when n is 0 */
            int64_t lead = 128;
            int64_t o = off[k] >= 0 ? off[k] : 0;
            if ((size_t)(span + (off[k] >= 0 ? off[k] : -off[k]) + 2 * lead) > cap) { bad = 1; break; }
            char *be = work[bufof[k]].base + cap - o;
            char *re = ref[bufof[k]].base + cap - o;
            if (off[k] < 0) { /* placed at the beginning of the pages, -off-1 bytes in; the image then extends behind */
                be = work[bufof[k]].base + (-off[k] - 1) + span; re = ref[bufof[k]].base + (-off[k] - 1) + span;
                wl[k] = work[bufof[k]].base; rl[k] = ref[bufof[k]].base; img[k] = span + (-off[k] - 1) + lead;
            } else { wl[k] = be - span - lead; rl[k] = re - span - lead; img[k] = span + lead + o; }
            char *s = be - span, *r = re - span;
            if (st[k] < 0 && cnt > 0) { s = be - sz[k]; r = re - sz[k]; }
            wp[k] = s; rp[k] = r;
        }
        if (bad) continue;
        if (alias == 5) { wp[0] = wp[oi]; rp[0] = rp[oi]; wp[oi] += st[oi]; rp[oi] += st[oi]; }
        /* fill: canary everywhere, then the values */
        for (int k = 0; k < nop; k++) if (bufof[k] == k) { memset(wl[k], 0xA5, img[k]); memset(rl[k], 0xA5, img[k]); }
        if (alias == 5) {
            /* seed element for accumulate */
            memcpy(wp[0], (char *)p1.buf + ((ph) % k1) * isz1, isz1);
            memcpy(rp[0], (char *)p1.buf + ((ph) % k1) * isz1, isz1);
        } else if (bufof[0] == 0) {
            for (int64_t i = 0; i < n; i++) {
                const char *v = (char *)p1.buf + ((i + ph) % k1) * isz1;
                memcpy(wp[0] + i * st[0], v, isz1); memcpy(rp[0] + i * st[0], v, isz1);
                if (st[0] == 0) break;
            }
        }
        if (nin == 2 && bufof[1] == 1) {
            for (int64_t i = 0; i < n; i++) {
                const char *v = (char *)p2.buf + ((i + ph) % k2) * isz2;
                memcpy(wp[1] + i * st[1], v, isz2); memcpy(rp[1] + i * st[1], v, isz2);
                if (st[1] == 0) break;
            }
        }
        for (int k = 0; k < nin; k++) if (bufof[k] == k && k != oi) memcpy(pris[k].base + (wl[k] - work[k].base), wl[k], img[k]);
        if (status) { status[0] = n; status[1] = st[0]; status[2] = st[1]; status[3] = st[2]; status[4] = off[0]; status[5] = off[1]; status[6] = off[2]; status[7] = ph; status[8] = alias; status[9] = 1; }
        npy_intp nn = n, ss[3] = { st[0], st[1], st[2] };
        char *a1[3] = { rp[0], rp[1], nop > 2 ? rp[2] : NULL };
        if (alias == 5) FO(a1, &nn, ss, DO);
        else { /* the oracle sees contiguous copies: independent of any stride handling */
            for (int k = 0; k < nin; k++) for (int64_t i = 0; i < n; i++) memcpy(canon[k] + i * sz[k], rp[k] + i * st[k], sz[k]);
            char *a3[3] = { canon[0], canon[1], canon[2] };
            npy_intp s3[3] = { sz[0], sz[1], sz[2] };
            a3[nin] = canon[2];
            if (n > 0) FO(a3, &nn, s3, DO);
            for (int64_t i = 0; i < n; i++) memcpy(rp[oi] + i * st[oi], canon[2] + i * osz, osz);
        }
        npy_intp nn2 = n, ss2[3] = { st[0], st[1], st[2] };
        char *a2[3] = { wp[0], wp[1], nop > 2 ? wp[2] : NULL };
        if (status) status[9] = 2;
        FH(a2, &nn2, ss2, DH);
        if (status) status[9] = 3;
        evals++;
        if (n > 0) nontrivial++;
        /* compare the output image */
        int ob = bufof[oi];
        char *W = wl[ob == oi ? oi : ob], *R = rl[ob == oi ? oi : ob]; size_t sz_img = img[ob == oi ? oi : ob];
        if (memcmp(W, R, sz_img)) {
            int64_t where = -1;
            for (int64_t i = 0; i < n; i++) {
                char *x = wp[oi] + i * st[oi], *y = rp[oi] + i * st[oi];
                if (eldiff(x, y, osz, mode, tol, atol)) { where = i; break; }
                if (mode != CMP_BITS) { memcpy(x, y, osz); }
            }
            if (where >= 0 || memcmp(W, R, sz_img)) {
                int64_t w = where < 0 ? 0 : where;
                int64_t gap = -1;
                if (where < 0) for (size_t q = 0; q < sz_img; q++) if (W[q] != R[q]) { gap = (W + q) - wp[oi]; break; }
                char *i1 = alias == 5 ? rp[0] : rp[0] + w * st[0], *i2 = nin == 2 ? rp[1] + w * st[1] : rp[0];
                res = Py_BuildValue("{s:s,s:L,s:(LLL),s:(LLL),s:L,s:i,s:L,s:L,s:y#,s:y#,s:y#,s:y#}",
                    "kind", where >= 0 ? "value" : "write outside the output elements",
                    "n", (long long)n, "strides", (long long)st[0], (long long)st[1], (long long)st[2],
                    "offs", (long long)off[0], (long long)off[1], (long long)off[2],
                    "phase", (long long)ph, "alias", alias, "index", (long long)where, "byte", (long long)gap,
                    "in1", i1, (Py_ssize_t)isz1, "in2", i2, (Py_ssize_t)(nin == 2 ? isz2 : isz1),
                    "got", n > 0 ? wp[oi] + w * st[oi] : W, (Py_ssize_t)osz, "want", n > 0 ? rp[oi] + w * st[oi] : W, (Py_ssize_t)osz);
            }
        }
        if (!res) for (int k = 0; k < nin; k++) if (bufof[k] == k && k != ob) {
            if (memcmp(pris[k].base + (wl[k] - work[k].base), wl[k], img[k])) {
                res = Py_BuildValue("{s:s,s:L,s:(LLL),s:(LLL),s:L,s:i,s:i}", "kind", "input operand modified",
                    "n", (long long)n, "strides", (long long)st[0], (long long)st[1], (long long)st[2],
                    "offs", (long long)off[0], (long long)off[1], (long long)off[2], "phase", (long long)ph, "alias", alias, "operand", k);
            }
        }
    }
    PyBuffer_Release(&p1); PyBuffer_Release(&p2); PyBuffer_Release(&lens); PyBuffer_Release(&pats);
    PyBuffer_Release(&offs); PyBuffer_Release(&phs);
    if (!res) { res = Py_None; Py_INCREF(res); }
    return Py_BuildValue("(NLL)", res, (long long)evals, (long long)nontrivial);
}

/* raw call of a loop on caller-provided addresses */
static PyObject *py_call(PyObject *self, PyObject *a)
{
    unsigned long long f, d, p0, p1, p2; long long n, s0, s1, s2;
    if (!PyArg_ParseTuple(a, "KKKKKLLLL", &f, &d, &p0, &p1, &p2, &n, &s0, &s1, &s2)) return NULL;
    npy_intp nn = n, ss[3] = { s0, s1, s2 };
    char *ar[3] = { (char *)(uintptr_t)p0, (char *)(uintptr_t)p1, (char *)(uintptr_t)p2 };
    ((loopf)(uintptr_t)f)(ar, &nn, ss, (void *)(uintptr_t)d);
    Py_RETURN_NONE;
}

/* reduce(fo,dd,fh,dh,sz,flt,pool,seeds,lens,strides,offs,phases,mode): out = out OP in[0] OP in[1] ...
 * mode 0 bits (oracle loop), 1 float value (oracle loop), 2 sum within n*eps*sum|x| of the long double sum,
 * 3 product within 4*n*eps*|product| of the long double product, 4 value, zeros of either sign equal (oracle loop)
 */
static PyObject *py_reduce(PyObject *self, PyObject *args)
{
    unsigned long long fo, dd, fh, dh; int sz, mode;
    Py_buffer pool, seeds, lens, strs, offs, phs;
    if (!PyArg_ParseTuple(args, "KKKKiy*y*y*y*y*y*i", &fo, &dd, &fh, &dh, &sz, &pool, &seeds, &lens, &strs, &offs, &phs, &mode)) return NULL;
    loopf FO = (loopf)(uintptr_t)fo, FH = (loopf)(uintptr_t)fh;
    void *DO = (void *)(uintptr_t)dd, *DH = (void *)(uintptr_t)dh;
    int64_t k = pool.len / sz, ks = seeds.len / sz, evals = 0, nontrivial = 0;
    const int64_t *L = lens.buf, *S = strs.buf, *O = offs.buf, *PH = phs.buf;
    PyObject *res = NULL;
    for (int64_t il = 0; il < lens.len / 8 && !res; il++)
    for (int64_t is = 0; is < strs.len / 8 && !res; is++)
    for (int64_t io = 0; io < offs.len / 8 && !res; io++)
    for (int64_t ih = 0; ih < phs.len / 8 && !res; ih++)
    for (int64_t ie = 0; ie < ks && !res; ie++) {
        int64_t n = L[il], st = S[is], off = O[io], ph = PH[ih], as = st < 0 ? -st : st;
        int64_t span = st ? (n - 1) * as + sz : sz, lead = 64;
        if ((size_t)(span + (off < 0 ? -off : off) + 2 * lead) > cap) continue;
        char *b, *lo; size_t img;
        if (off >= 0) { b = work[1].base + cap - off - span; lo = b - lead; img = lead + span + off; }
        else { b = work[1].base + (-off - 1); lo = work[1].base; img = (-off - 1) + span + lead; }
        memset(lo, 0xA5, img);
        char *p = st < 0 ? b + (n - 1) * as : b;
        for (int64_t i = 0; i < n; i++) {
            const char *v = (char *)pool.buf + ((i + ph) % k) * sz;
            memcpy(canon[1] + i * sz, st ? v : (char *)pool.buf + (ph % k) * sz, sz);
            if (st || i == 0) memcpy(p + i * st, v, sz);
        }
        char *out = work[0].base + cap - sz; /* one element, guard page behind, canary before */
        memset(out - 64, 0xA5, 64);
        const char *seed = (char *)seeds.buf + ie * sz;
        memcpy(out, seed, sz);
        char want[32]; memcpy(want, seed, sz);
        memcpy(pris[1].base + (lo - work[1].base), lo, img);
        if (status) { status[0] = n; status[1] = 0; status[2] = st; status[3] = 0; status[4] = off; status[5] = 0; status[6] = 0; status[7] = ph; status[8] = 6; status[9] = 2; }
        npy_intp nn = n, ss[3] = { 0, st, 0 };
        char *a[3] = { out, p, out };
        FH(a, &nn, ss, DH);
        if (status) status[9] = 3;
        evals++; if (n > 1) nontrivial++;
        int bad = 0;
        if (mode == 2 || mode == 3) {
            long double r, m; int isf = sz == 4;
            r = isf ? *(float *)want : *(double *)want; m = fabsl(r);
            for (int64_t i = 0; i < n; i++) {
                long double x = isf ? ((float *)canon[1])[i] : ((double *)canon[1])[i];
                if (mode == 2) { r += x; m += fabsl(x); } else { r *= x; }
            }
            if (mode == 3) m = 4 * fabsl(r);
            long double g = isf ? *(float *)out : *(double *)out, eps = isf ? 1.2e-7L : 2.3e-16L;
            if (r != r) bad = g == g;
            else if (isinf(r)) bad = g != r;
            else bad = !(fabsl(g - r) <= (n + 1) * eps * m);
            if (isf) { float f = r; memcpy(want, &f, 4); } else { double f = r; memcpy(want, &f, 8); }
        } else {
            npy_intp n3 = n, s3[3] = { 0, sz, 0 };
            char buf[64] __attribute__((aligned(32))); memcpy(buf, seed, sz);
            char *a3[3] = { buf, canon[1], buf };
            FO(a3, &n3, s3, DO);
            memcpy(want, buf, sz);
            bad = eldiff(out, want, sz, mode == 0 ? CMP_BITS : mode == 4 ? CMP_FZERO : CMP_FLOAT, 0, 0);
        }
        for (int i = 1; i <= 64; i++) if ((unsigned char)out[-i] != 0xA5) bad = 2;
        if (memcmp(pris[1].base + (lo - work[1].base), lo, img)) bad = 3;
        if (bad)
            res = Py_BuildValue("{s:s,s:L,s:(LLL),s:(LLL),s:L,s:i,s:y#,s:y#,s:y#}", "kind",
                bad == 1 ? "value" : bad == 2 ? "write outside the output elements" : "input operand modified",
                "n", (long long)n, "strides", 0LL, (long long)st, 0LL, "offs", (long long)off, 0LL, 0LL, "phase", (long long)ph, "alias", 6,
                "in1", seed, (Py_ssize_t)sz, "got", out, (Py_ssize_t)sz, "want", want, (Py_ssize_t)sz);
    }
    PyBuffer_Release(&pool); PyBuffer_Release(&seeds); PyBuffer_Release(&lens); PyBuffer_Release(&strs); PyBuffer_Release(&offs); PyBuffer_Release(&phs);
    if (!res) { res = Py_None; Py_INCREF(res); }
    return Py_BuildValue("(NLL)", res, (long long)evals, (long long)nontrivial);
}

/* flags(fo,dd,fh,dh,nin,s1,s2,so,base1,base2,pool1,pool2,lens,strides,positions,reduce): floating point status left by a loop.
 * All elements are the base values, except the one at the position, which is pool1[j] (and pool2[j] in operand 2;
 * for a reduction pool2[j] is at the mirrored position).  positions: -1 all, else that many, spread over the array.
 * The status (divide by zero, overflow, invalid) with nothing raised before must be what the loop numpy had leaves for
 * these operands, or for the same elements one at a time; with everything raised before it must not lack what numpy leaves.
 */
#define FEM (FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID)
static int flagrun(loopf F, void *D, char **a, int64_t n, const npy_intp *ss, int pre)
{
    char *ar[3] = { a[0], a[1], a[2] }; npy_intp nn = n, s3[3] = { ss[0], ss[1], ss[2] };
    feclearexcept(FE_ALL_EXCEPT);
    if (pre) feraiseexcept(FEM);
    F(ar, &nn, s3, D);
    int r = fetestexcept(FEM);
    feclearexcept(FE_ALL_EXCEPT);
    return r;
}
static PyObject *py_flags(PyObject *self, PyObject *args)
{
    unsigned long long fo, dd, fh, dh; int nin, sz[3], red;
    Py_buffer b[2], pool[2], lens, strs, poss;
    if (!PyArg_ParseTuple(args, "KKKKiiiiy*y*y*y*y*y*y*i", &fo, &dd, &fh, &dh, &nin, &sz[0], &sz[1], &sz[2], &b[0], &b[1], &pool[0], &pool[1], &lens, &strs, &poss, &red)) return NULL;
    loopf FO = (loopf)(uintptr_t)fo, FH = (loopf)(uintptr_t)fh;
    void *DO = (void *)(uintptr_t)dd, *DH = (void *)(uintptr_t)dh;
    int64_t k = pool[0].len / sz[0], evals = 0, nontrivial = 0;
    const int64_t *L = lens.buf, *S = strs.buf, *P = poss.buf;
    PyObject *res = NULL;
    int io = nin; /* the result */
    for (int64_t il = 0; il < lens.len / 8 && !res; il++)
    for (int64_t is = 0; is < strs.len / 24 && !res; is++) {
        int64_t n = L[il]; npy_intp ss[3] = { S[is * 3], S[is * 3 + 1], S[is * 3 + 2] };
        if (red) { ss[0] = 0; ss[2] = 0; }
        else if (nin == 1) ss[1] = ss[2];
        char *a[3]; int fit = 1;
        for (int i = 0; i <= nin; i++) {
            int64_t as = ss[i] < 0 ? -ss[i] : ss[i];
            if ((size_t)((n - 1) * as + 64) > cap) fit = 0;
            a[i] = ss[i] < 0 ? work[i].base + (n - 1) * as : work[i].base;
        }
        if (!fit) continue;
        for (int i = 0; i < nin; i++) for (int64_t j = 0; j < n; j++) memcpy(a[i] + j * ss[i], b[i].buf, sz[i]);
        if (red) a[2] = a[0];
        int64_t np_ = P[il] < 0 ? n : P[il];
        for (int64_t ip = 0; ip < np_ && !res; ip++) {
            int64_t pos = P[il] < 0 ? ip : np_ == 1 ? n / 2 : ip * (n - 1) / (np_ - 1), pos2 = red ? n - 1 - pos : pos;
            if (red && pos == pos2) continue;
            for (int64_t j = 0; j < k && !res; j++) {
                if (red) {
                    memcpy(a[1] + pos * ss[1], (char *)pool[0].buf + j * sz[0], sz[0]);
                    memcpy(a[1] + pos2 * ss[1], (char *)pool[1].buf + j * sz[0], sz[0]);
                } else for (int i = 0; i < nin; i++) memcpy(a[i] + pos * ss[i], (char *)pool[i].buf + j * sz[i], sz[i]);
                for (int pre = 0; pre < 2 && !res; pre++) {
                    if (status) { status[0] = n; status[1] = ss[0]; status[2] = ss[1]; status[3] = ss[2]; status[4] = pos; status[5] = j; status[6] = pre; status[7] = 0; status[8] = 7; status[9] = 2; }
                    if (red) memcpy(a[0], b[0].buf, sz[0]);
                    int got = flagrun(FH, DH, a, n, ss, pre);
                    if (status) status[9] = 3;
                    if (red) memcpy(a[0], b[0].buf, sz[0]);
                    int want = flagrun(FO, DO, a, n, ss, pre), one = want;
                    evals++; nontrivial += got || want;
                    if (pre && !(want & ~got)) continue; /* what was raised before is kept (a loop that clears it is not noticed by users) */
                    if (got != want && !red) { /* (numpy's loops may raise something for the lanes behind the end) */
                        char *e[3]; npy_intp zs[3] = { 0, 0, 0 };
                        one = 0;
                        int pr = pre;
                        for (int q = 0; q < 2; q++) {
                            int64_t at = q ? (pos ? 0 : n - 1) : pos;
                            for (int i = 0; i <= nin; i++) e[i] = a[i] + at * ss[i];
                            for (int i = 0; i < nin; i++) zs[i] = sz[i];
                            zs[io] = sz[2];
                            if (q == 0) one = flagrun(FO, DO, e, 1, zs, pr); else one |= flagrun(FO, DO, e, 1, zs, 0);
                        }
                    }
                    if (got != want && got != one)
                        res = Py_BuildValue("{s:s,s:L,s:(LLL),s:L,s:i,s:i,s:i,s:i}", "kind", "floating point status",
                            "n", (long long)n, "strides", (long long)ss[0], (long long)ss[1], (long long)ss[2], "position", (long long)pos, "raised before", pre ? FEM : 0,
                            "special", (int)j, "flags", got, "flags_wanted", want);
                }
            }
            if (red) { memcpy(a[1] + pos * ss[1], b[0].buf, sz[0]); memcpy(a[1] + pos2 * ss[1], b[0].buf, sz[0]); }
            else for (int i = 0; i < nin; i++) memcpy(a[i] + pos * ss[i], b[i].buf, sz[i]);
        }
    }
    for (int i = 0; i < 2; i++) { PyBuffer_Release(&b[i]); PyBuffer_Release(&pool[i]); }
    PyBuffer_Release(&lens); PyBuffer_Release(&strs); PyBuffer_Release(&poss);
    if (!res) { res = Py_None; Py_INCREF(res); }
    return Py_BuildValue("(NLL)", res, (long long)evals, (long long)nontrivial);
}

/* ---- a numpy data allocator with a guard page behind (and canaries around) every array ---- */
static long long corrupt_count; static size_t corrupt_size; static long long live_count;
typedef struct { size_t size, map; char *base; uint64_t magic; } ghdr;
static void *g_malloc(void *ctx, size_t n)
{
    size_t data = (n + 15) & ~(size_t)15, pages = (data + sizeof(ghdr) + 64 + 4095) & ~(size_t)4095;
    char *b = mmap(NULL, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return NULL;
    mprotect(b + pages, 4096, PROT_NONE);
    char *p = b + pages - data;
    memset(p - 64, 0xA5, 64 + data);
    ghdr *h = (ghdr *)(p - 64 - sizeof(ghdr));
    h->size = n; h->map = pages + 4096; h->base = b; h->magic = 0x9e3779b97f4a7c15ull;
    __sync_fetch_and_add(&live_count, 1);
    return p;
}
static void *g_calloc(void *ctx, size_t k, size_t e) { char *p = g_malloc(ctx, k * e); if (p) memset(p, 0, k * e); return p; }
static void g_free(void *ctx, void *q, size_t n)
{
    if (!q) return;
    char *p = q; ghdr *h = (ghdr *)(p - 64 - sizeof(ghdr));
    int bad = h->magic != 0x9e3779b97f4a7c15ull;
    if (bad) { corrupt_count++; return; }
    for (int i = 1; i <= 64; i++) if ((unsigned char)p[-i] != 0xA5) bad = 1;
    size_t data = (h->size + 15) & ~(size_t)15;
    for (size_t i = h->size; i < data; i++) if ((unsigned char)p[i] != 0xA5) bad = 1;
    if (bad) { corrupt_count++; corrupt_size = h->size; }
    __sync_fetch_and_sub(&live_count, 1);
    munmap(h->base, h->map);
}
static void *g_realloc(void *ctx, void *q, size_t n)
{
    char *p = g_malloc(ctx, n);
    if (q && p) { ghdr *h = (ghdr *)((char *)q - 64 - sizeof(ghdr)); memcpy(p, q, h->size < n ? h->size : n); g_free(ctx, q, 0); }
    return p;
}
static PyDataMem_Handler ghandler = { "pn_guard", 1, { NULL, g_malloc, g_calloc, g_realloc, g_free } };
static PyObject *old_handler;
static PyObject *py_guard(PyObject *self, PyObject *a)
{
    int on; if (!PyArg_ParseTuple(a, "p", &on)) return NULL;
    if (on && !old_handler) {
        PyObject *c = PyCapsule_New(&ghandler, "mem_handler", NULL);
        old_handler = PyDataMem_SetHandler(c);
        if (!old_handler) return NULL;
    } else if (!on && old_handler) { PyObject *r = PyDataMem_SetHandler(old_handler); Py_XDECREF(r); old_handler = NULL; }
    Py_RETURN_NONE;
}
static PyObject *py_corrupt(PyObject *self, PyObject *a)
{
    PyObject *r = Py_BuildValue("LL", corrupt_count, live_count); corrupt_count = 0; return r;
}

/* the fill function of the dtype (used by arange) on an array whose first two elements are set */
static PyObject *py_fill(PyObject *self, PyObject *o)
{
    PyArrayObject *a = (PyArrayObject *)o;
    PyArray_FillFunc *f = PyArray_DESCR(a)->f->fill;
    if (!f) { PyErr_SetString(PyExc_TypeError, "no fill"); return NULL; }
    if (f(PyArray_DATA(a), PyArray_SIZE(a), a) < 0 && !PyErr_Occurred()) PyErr_SetString(PyExc_ValueError, "fill failed");
    if (PyErr_Occurred()) return NULL;
    Py_RETURN_NONE;
}
/* ---- an operation of one thread is stopped when it first touches a chosen page, another thread then executes a command, and the operation goes on ---- */
static struct { char *page; volatile int state; sem_t hit, go; } trap; /* state: 0 idle, 1 armed, 2 stopped, 5 the other thread acts, 3 resumed, 4 went on because it holds the interpreter lock */
static struct sigaction trap_old;
static void trap_handler(int sig, siginfo_t *si, void *ctx)
{
    char *p = (char *)((uintptr_t)si->si_addr & ~(uintptr_t)4095);
    int e = errno;
    if (!trap.page || p != trap.page) { sigaction(SIGSEGV, &trap_old, NULL); return; }
    if (__sync_bool_compare_and_swap(&trap.state, 1, 2)) {
        mprotect(trap.page, 4096, PROT_READ | PROT_WRITE);
        sem_post(&trap.hit);
        for (;;) {
            struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 100000000;
            if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
            if (!sem_timedwait(&trap.go, &ts)) break;
            /* the other thread cannot run: this one holds the interpreter lock */
            if (errno == ETIMEDOUT && __sync_bool_compare_and_swap(&trap.state, 2, 4)) { errno = e; return; }
        }
        trap.state = 3;
    }
    errno = e;
}
static PyObject *py_trap_arm(PyObject *self, PyObject *a)
{
    unsigned long long p; if (!PyArg_ParseTuple(a, "K", &p)) return NULL;
    static int inst;
    if (!inst) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, &trap_old); inst = 1;
    }
    sem_init(&trap.hit, 0, 0); sem_init(&trap.go, 0, 0);
    trap.page = (char *)(uintptr_t)(p & ~4095ull); trap.state = 1;
    mprotect(trap.page, 4096, PROT_NONE);
    Py_RETURN_NONE;
}
static PyObject *py_trap_wait(PyObject *self, PyObject *a)
{
    double t; if (!PyArg_ParseTuple(a, "d", &t)) return NULL;
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += (long)t; int r;
    Py_BEGIN_ALLOW_THREADS
    while ((r = sem_timedwait(&trap.hit, &ts)) && errno == EINTR) ;
    Py_END_ALLOW_THREADS
    if (!r && __sync_bool_compare_and_swap(&trap.state, 2, 5)) return PyLong_FromLong(2);
    return PyLong_FromLong(r ? -1 : trap.state);
}
static PyObject *py_trap_resume(PyObject *self, PyObject *o) { sem_post(&trap.go); Py_RETURN_NONE; }
static PyObject *py_trap_done(PyObject *self, PyObject *o)
{
    if (__sync_bool_compare_and_swap(&trap.state, 1, 0)) { mprotect(trap.page, 4096, PROT_READ | PROT_WRITE); sem_post(&trap.hit); }
    Py_RETURN_NONE;
}
static PyObject *py_pages(PyObject *self, PyObject *a)
{
    unsigned long long n; if (!PyArg_ParseTuple(a, "K", &n)) return NULL;
    npy_intp d[1] = { (npy_intp)n };
    char *b = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return PyErr_NoMemory();
    return PyArray_SimpleNewFromData(1, d, NPY_UINT8, b);   /* kept for the life of the process */
}
static PyObject *py_fillfree(PyObject *self, PyObject *o)
{
    PyArrayObject *a = (PyArrayObject *)o;
    PyArray_FillFunc *f = PyArray_DESCR(a)->f->fill;
    Py_BEGIN_ALLOW_THREADS
    f(PyArray_DATA(a), PyArray_SIZE(a), a);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
static PyMethodDef trapmeth[] = { { "fillfree", py_fillfree, METH_O, "" }, { "trap_arm", py_trap_arm, METH_VARARGS, "" }, { "trap_wait", py_trap_wait, METH_VARARGS, "" }, { "trap_resume", py_trap_resume, METH_NOARGS, "" },
    { "trap_done", py_trap_done, METH_NOARGS, "" }, { "pages", py_pages, METH_VARARGS, "" }, { NULL } };
static PyObject *py_mapslot(PyObject *self, PyObject *o) { return PyLong_FromVoidPtr((void *)PyArray_Type.tp_as_mapping->mp_subscript); }
static PyMethodDef meth[] = { { "mapslot", py_mapslot, METH_NOARGS, "" }, { "fill", py_fill, METH_O, "" },
    { "guard", py_guard, METH_VARARGS, "" }, { "corrupt", py_corrupt, METH_NOARGS, "" },
    { "reduce", py_reduce, METH_VARARGS, "" }, { "flags", py_flags, METH_VARARGS, "" },
    { "loops", py_loops, METH_O, "" }, { "init", py_init, METH_VARARGS, "" },
    { "elementwise", py_elementwise, METH_VARARGS, "" }, { "call", py_call, METH_VARARGS, "" },
    { NULL } };
static struct PyModuleDef md = { PyModuleDef_HEAD_INIT, "nd", NULL, -1, meth };
PyMODINIT_FUNC PyInit_nd(void) { import_array(); import_umath(); PyObject *m = PyModule_Create(&md); if (m) PyModule_AddFunctions(m, trapmeth); return m; }
