"""Exploration of thread schedules of the real code (runtime: /verif/mc/rt.cpp).

As a program (a fresh process per scenario): mcrun.py <stage dir> <scenario json>; prints the result as one JSON line.
As a library: run(D, scenarios) executes scenarios in parallel processes.

A scenario is a dict:
  cpus      processors the module sees at import (it starts that many worker threads, cpus-1 of them are used)
  order     the order in which the worker threads start and begin to wait for work; workers left out have not run yet
  atop, zigzag, workers, threads    settings made before the exploration
  warm      number of operations executed before the exploration starts (fills the ring of 1024 work items)
  nmain     number of submitting threads
  ops       list of operations, in program order per submitting thread ('fiber')
  bound     preemptions allowed
"""
import ctypes, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = {1: 'wrong result', 2: 'late write', 3: 'deadlock', 4: 'livelock', 5: 'crash', 6: 'divergence', 7: 'table full', 8: 'write to released memory', 9: 'warm-up failed', 10: 'floating point errors reported', 11: 'data race'}


class Op(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int64), ('fn', ctypes.c_void_p), ('data', ctypes.c_void_p), ('args', ctypes.c_void_p * 8),
                ('steps', ctypes.c_int64 * 4), ('n', ctypes.c_int64), ('out', ctypes.c_void_p), ('expect', ctypes.c_void_p),
                ('outlen', ctypes.c_int64), ('fiber', ctypes.c_int64), ('retire', ctypes.c_int64), ('flags', ctypes.c_int64)]


class Init(ctypes.Structure):
    _fields_ = [('dst', ctypes.c_void_p), ('src', ctypes.c_void_p), ('len', ctypes.c_int64), ('fill', ctypes.c_int64)]


FIELDS = ['executions', 'steps', 'states', 'outcomes', 'choices', 'restarts', 'active', 'pruned', 'maxdepth', 'capped']


class Result(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int64), ('detail', ctypes.c_int64 * 6)] + [(f, ctypes.c_int64) for f in FIELDS] + \
               [('nsched', ctypes.c_int64), ('sched', ctypes.c_int64 * 4096)]


def run(D, scens, nproc=None, timeout=600, stop=None):
    """stop: ends the exploration of the other scenarios as soon as it returns a true value for a result"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    stopped = threading.Event()
    live, lock = set(), threading.Lock()

    def one(sc):
        t = time.time()
        e = dict(env, PNMC_CPUS=str(sc.get('cpus', 2)))
        with lock:
            if stopped.is_set():
                return dict(sc=sc, skipped='stopped', wall=0)
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), D, json.dumps(sc)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            live.add(p)
        try:
            so, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            so = None
        with lock:
            live.discard(p)
            if stopped.is_set() and p.returncode < 0:
                return dict(sc=sc, skipped='stopped', wall=time.time() - t)
        if so is None:
            r = dict(sc=sc, error='no end within %d s' % timeout, wall=time.time() - t)
        else:
            r = None
            for line in so.splitlines():
                if line.startswith('{"mc'):
                    r = dict(json.loads(line), sc=sc, wall=round(time.time() - t, 2))
            if r is None:
                r = dict(sc=sc, error='worker process ended with status %s: %s' % (p.returncode, (se or so)[-600:]), wall=time.time() - t)
        if stop and stop(r):
            with lock:
                if not stopped.is_set():
                    stopped.set()
                    for q in live:
                        q.kill()
        return r

    with ThreadPoolExecutor(nproc or os.cpu_count() or 4) as ex:
        fut = [(i, ex.submit(one, s)) for i, s in sorted(enumerate(scens), key=lambda x: -x[1].get('cost', 1))]
        out = [None] * len(scens)
        for i, f in fut:
            out[i] = f.result()
    return out


def main():
    D, sc = sys.argv[1], json.loads(sys.argv[2])
    sys.path.insert(0, os.path.join(D, 'src'))
    import pnbuild
    sys.path.insert(0, pnbuild.ndmod())
    import numpy as np
    import nd
    sofile = os.path.join(D, 'src', 'pnumpy', '_pnumpy.abi3.so')
    orig = {}
    for u in {o['loop'][0] for o in sc['ops'] if 'loop' in o}:
        orig[u] = table(np, nd, u)
    before = {}
    if 'every' in sc:
        before = {u: table(np, nd, u) for u in dir(np) if isinstance(getattr(np, u), np.ufunc)}
    import pnumpy as pn
    assert pn._pnumpy.__file__ == sofile, pn._pnumpy.__file__
    so = ctypes.CDLL(sofile)
    so.mc_arena.restype = ctypes.c_void_p
    so.mc_explore.restype = so.mc_replay.restype = so.mc_warm.restype = ctypes.c_int64
    so.mc_explore.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64,
                              ctypes.c_double, ctypes.c_void_p]
    so.mc_replay.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64,
                             ctypes.c_char_p, ctypes.c_void_p]
    so.mc_warm.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_void_p]
    so.mc_setup.argtypes = [ctypes.c_void_p, ctypes.c_int64]

    pn.ledger_disable()
    pn.thread_enable() if sc.get('threads', True) else pn.thread_disable()
    if sc.get('atop', True):
        pn.atop_enable()
    else:
        pn.atop_disable()
    if sc.get('zigzag'):
        pn.thread_zigzag()
    if sc.get('workers'):
        pn.thread_setworkers(sc['workers'])

    nw = so.mc_workers()
    order = sc.get('order')
    order = list(range(nw)) if order is None else order
    if so.mc_setup((ctypes.c_int64 * 16)(*order), len(order)):
        print(json.dumps({'mc': 0, 'error': 'a worker did not reach its waiting state'}))
        return

    if sc.get('dead'):
        so.mc_dead((ctypes.c_int64 * 16)(*sc['dead']), len(sc['dead']))
    so.mc_failalloc.argtypes = [ctypes.c_int64]
    so.mc_failalloc(sc.get('failalloc', 0))
    so.mc_race.argtypes = [ctypes.c_int64]
    so.mc_race(sc['race'] if 'race' in sc else int(sc['bound'] <= 1 and (sc.get('nmain', 1) == 1 or 'sort' not in str(sc['ops']))))

    if 'every' in sc:
        # every loop the module replaced (the k-th part of m), by both threads, on data of their own
        k, m = sc['every']
        orig.update(before)
        ops = every(np, nd, before)
        ops = [o for i, o in enumerate(ops) if i % m == k]
        if sc['n'] >= 16384:          # (the rounding of a product depends on how it is divided)
            ops = [o for o in ops if o.get('form') != 'reduce' or o['loop'][0] not in ('multiply', 'divide', 'true_divide', 'power', 'float_power', 'hypot')
                   or o['loop'][1][0] not in 'fd']
        sc['ops'] = [dict(o, n=sc['n'] - f, seed=1 + f, fiber=f) for o in ops for f in range(sc.get('nmain', 1))] + sc['ops']

    # --- buffers
    base = so.mc_arena()
    top = [4096]
    half = 128 << 20

    def alloc(nbytes):
        a = base + top[0]
        top[0] += (nbytes + 4096 + 4095) & ~4095
        assert top[0] < half
        return a

    def view(a, dt, n):
        return np.frombuffer((ctypes.c_char * (n * np.dtype(dt).itemsize)).from_address(a), dt, n)

    keep = []
    inits = []

    def pattern(dt, n, seed):
        dt = np.dtype(dt)
        x = (np.arange(n, dtype=np.uint64) * np.uint64(2654435761) + np.uint64(seed * 977 + 12345)) >> np.uint64(7)
        if dt.kind == 'b':
            return (x & np.uint64(1)).astype(dt)
        if dt.kind in 'iu':
            return (x & np.uint64(0x3f)).astype(dt)
        return ((x & np.uint64(0xff)).astype(dt) - dt.type(100))

    def fixed(arr):
        """constant data in the arena"""
        arr = np.ascontiguousarray(arr)
        a = alloc(arr.nbytes)
        view(a, 'u1', arr.nbytes)[:] = arr.view('u1').ravel()
        return a

    def mutable(arr):
        """data that is reset before every execution"""
        src = fixed(arr)
        dst = alloc(arr.nbytes)
        inits.append((dst, src, arr.nbytes, 0))
        view(dst, 'u1', arr.nbytes)[:] = np.ascontiguousarray(arr).view('u1').ravel()
        return dst

    def blank(nbytes, fill=0x5C):
        dst = alloc(nbytes)
        inits.append((dst, 0, nbytes, fill))
        return dst

    cops = []
    for o in sc['ops']:
        c = Op()
        c.fiber = o.get('fiber', 0)
        c.retire = o.get('retire', 1)
        c.flags = -1
        if o.get('op') == 'fork':
            c.kind = 2
        elif 'loop' in o:
            u, t = o['loop']
            ref = orig[u]
            if o.get('ref') == 'self':       # the module's own result without worker threads
                ref = table(np, nd, u)
                pn.thread_disable()
            tab = {x[0]: x for x in reversed(table(np, nd, u))}      # (the first loop of a signature is the one that is used)
            loop = tab[t]
            ins, outt = t.split('->')
            c.kind, c.fn, c.data = 0, loop[1], loop[2]
            n = c.n = o['n']
            form = o.get('form', 'new')
            a = pattern(ins[0], n, o.get('seed', 1))
            if form == 'reduce':
                b = a
                first = pattern(ins[0], 1, 5)
                out = mutable(first)
                with np.errstate(all='ignore'):
                    exp = numpy_ref(np, nd, ref, t, [first, a], 'reduce')
                ip = fixed(a)
                c.args[0] = out
                c.args[1] = ip
                c.args[2] = out
                c.steps[0], c.steps[1], c.steps[2] = 0, a.itemsize, 0
            elif len(ins) == 1:
                exp = numpy_ref(np, nd, ref, t, [a], 'map')
                if form == 'inplace':
                    out = mutable(a)
                    c.args[0] = c.args[1] = out
                else:
                    out = blank(exp.nbytes)
                    c.args[0], c.args[1] = fixed(a), out
                c.steps[0], c.steps[1] = a.itemsize, exp.itemsize
            else:
                b = pattern(ins[1], 1 if form == 'inplace' else n, o.get('seed', 1) + 1)
                if form == 'inplace':
                    b[:] = 1
                if 'zeros' in o:
                    # a division by zero at these positions, none anywhere else
                    b[:] = 1
                    b[o['zeros']] = 0
                    a[:] = 3
                    c.flags = 4 if o['zeros'] else 0
                exp = numpy_ref(np, nd, ref, t, [a, b], 'map')
                if form == 'inplace':
                    out = mutable(a)
                    c.args[0], c.args[1], c.args[2] = out, fixed(b), out
                    c.steps[0], c.steps[1], c.steps[2] = a.itemsize, 0, a.itemsize
                else:
                    out = blank(exp.nbytes)
                    c.args[0], c.args[1], c.args[2] = fixed(a), fixed(b), out
                    c.steps[0], c.steps[1], c.steps[2] = a.itemsize, b.itemsize, exp.itemsize
            if o.get('ref') == 'self' and sc.get('threads', True):
                pn.thread_enable()
            e = fixed(exp)
            c.out, c.expect, c.outlen = out, e, exp.nbytes
        else:
            import mcops
            if not mcops.available(so, o):
                print(json.dumps({'mc': 1, 'kind': 0, 'skipped': 'the entry point of %s does not compile against this tree' % o['op']}))
                return
            mcops.build(o, c, so, np, fixed, mutable, blank, pattern, inits)
        cops.append(c)
    ops = (Op * len(cops))(*cops)
    cin = (Init * max(1, len(inits)))(*[Init(*i) for i in inits])
    res = Result()
    if sc.get('warm'):
        k = so.mc_warm(ops, 1, cin, len(inits), sc['warm'], ctypes.byref(res))
        if k:
            print(json.dumps({'mc': 0, 'kind': int(k), 'what': 'warm-up: ' + KINDS.get(k, str(k)), 'detail': list(res.detail)}))
            return
    t0 = time.time()
    kind = so.mc_explore(ops, len(cops), cin, len(inits), sc.get('nmain', 1), sc['bound'], sc.get('max_exec', 0), float(sc.get('seconds', 0)), ctypes.byref(res))
    out = {'mc': 1, 'kind': int(kind), 'workers': nw, 'detail': list(res.detail), 'explore_s': round(time.time() - t0, 2)}
    for f in FIELDS:
        out[f] = getattr(res, f)
    so.mc_allocs_max.restype = ctypes.c_int64
    out['allocs'] = so.mc_allocs_max()
    out['nops'] = len(cops)
    if kind:
        out['what'] = KINDS.get(kind, str(kind))
        out['sched'] = list(res.sched[:res.nsched])
        rr = Result()
        s = (ctypes.c_int64 * 4096)(*out['sched'])
        k2 = so.mc_replay(ops, len(cops), cin, len(inits), sc.get('nmain', 1), s, len(out['sched']),
                          sc.get('trace', '').encode() or None, ctypes.byref(rr))
        out['replayed'] = int(k2)
    print(json.dumps(out))


def table(np, nd, u):
    uf = getattr(np, u)
    out = []
    for t, fn, data in nd.loops(uf):
        c = [TYPECH[k] if k < len(TYPECH) else '*' for k in t]
        out.append((''.join(c[:uf.nin]) + '->' + ''.join(c[uf.nin:]), fn, data))
    return out


def every(np, nd, before):
    ops = []
    for u in sorted(before):
        seen = set()
        for (t, fn, data), (t0, fn0, data0) in zip(table(np, nd, u), before[u]):
            ins, out = t.split('->')
            if fn == fn0 or t in seen or '*' in t or set(t) & set('OSUVMmeGg') or len(out) != 1:
                continue
            seen.add(t)
            ops.append(dict(loop=[u, t], ref='self'))
            if ins[0] == out and getattr(np, u).signature is None:
                ops.append(dict(loop=[u, t], ref='self', form='inplace'))
                if len(ins) == 2 and ins[1] == out:
                    ops.append(dict(loop=[u, t], ref='self', form='reduce'))
    return ops


TYPECH = '?bBhHiIlLqQfdgFDGOSUVMme'


def numpy_ref(np, nd, tab, t, arrays, mode):
    """result of the loop numpy had before the module was imported"""
    loop = [x for x in tab if x[0] == t][0]
    outt = np.dtype(t.split('->')[1])
    if mode == 'reduce':
        r = arrays[0].astype(outt)
        nd.call(loop[1], loop[2], r.ctypes.data, arrays[1].ctypes.data, r.ctypes.data, len(arrays[1]), 0, arrays[1].itemsize, 0)
        return r
    n = len(arrays[0])
    r = np.empty(n, outt)
    p = [a.ctypes.data for a in arrays] + [r.ctypes.data, 0]
    st = [a.itemsize if len(a) == n else 0 for a in arrays] + [r.itemsize, 0]
    nd.call(loop[1], loop[2], p[0], p[1], p[2], n, st[0], st[1], st[2])
    return r


if __name__ == '__main__':
    main()
