"""P30 settings do not change results, P31 settings read back as set, P32 the ledger only observes: case spaces (see apidiff.py).

In the process without the package a thunk returns what the reference model of the settings predicts, and numpy's results.
"""
import itertools

BIG = 70000
RULE = {
    'P30': ('Every combination of atop, threads, workers (1, 2, 3, maximum), ledger, recycler, zig-zag mode and __getitem__ hook, and for each a battery of operations of every kind (binary, compare, unary, logical, reduce, '
            'accumulate, sort, argsort, lexsort, arange, index, argmin) on lengths below and above the threading limits, compared with numpy alone; and every combination of atop, threads, workers (2, maximum) and zig-zag mode with '
            'every hooked function and type, as new array, strided, in place, with a scalar on either side, reduced, reduced along an axis and accumulated, on lengths 7, 70001 and 213017 (one chunk, several, more than workers). '
            'Transitions of the settings model are executed on the real package.'),
    'P31': ('Explicit-state exploration of the settings model: every state (atop, threads, workers, ledger, recycler, zig-zag, hook) and every command (29 commands), and every command sequence up to depth 3 (4 in the thorough tier) from the '
            'state after import; each transition is executed on the real package and return value, all query functions and a probe operation are compared with the model.'),
    'P32': ('Every hooked function and type (from atop_info), as element-wise, scalar, reduce and accumulate call on lengths 0, 1, 7, 1000 and 70000, sorts, argsorts, argmin, arange, with the ledger on and off, serial and '
            'threaded: equal results, and the ledger stays enabled; repeated past the size of the ring buffer.'),
}

# ---------------------------------------------------------------- the model
FLAGS = ('atop', 'threads', 'workers', 'ledger', 'recycler', 'zigzag', 'hook')
BASE = (True, True, 3, False, False, False, False)
CMDS = ['atop_enable', 'atop_disable', 'thread_enable', 'thread_disable', 'ledger_enable', 'ledger_disable', 'recycler_enable', 'recycler_disable', 'hook_enable', 'hook_disable', 'zigzag', 'enable', 'disable', 'init',
        'initialize', 'workers -5', 'workers 0', 'workers 1', 'workers 2', 'workers 3', 'workers 1000', 'workers x', 'info', 'infoone', 'infobad', 'setw', 'setwbad', 'cpustring', 'ledger_info']
MAXW = 'max'


def model(s, c):
    """(state, returned value)"""
    d = dict(zip(FLAGS, s))
    r = None
    if c in ('atop_enable', 'atop_disable', 'ledger_enable', 'ledger_disable', 'recycler_enable', 'recycler_disable'):
        d[c.split('_')[0]] = c.endswith('enable')
    elif c in ('thread_enable', 'thread_disable'):
        d['threads'] = c == 'thread_enable'
    elif c in ('hook_enable', 'hook_disable'):
        d['hook'] = c == 'hook_enable'
        r = 'any'
    elif c == 'zigzag':
        d['zigzag'] = r = not d['zigzag']
    elif c in ('enable', 'disable'):
        d['atop'] = d['threads'] = c == 'enable'
    elif c.startswith('workers'):
        w = c.split()[1]
        if w == 'x':
            r = 'TypeError'
        else:
            r = d['workers']
            d['workers'] = MAXW if int(w) > 100 else max(1, int(w))
    elif c == 'info':
        r = 'dict'
    elif c == 'infoone':
        r = ['MaxThreads', 'MinElementsToThread', 'pBinaryFunc', 'pOldFunc', 'pReduceFunc', 'pUnaryFunc']
    elif c == 'infobad':
        r = False
    elif c == 'setw':
        r = 'int and back' if d['atop'] else False
    elif c == 'setwbad':
        r = [False] * 5
    elif c == 'cpustring':
        r = 'str'
    return tuple(d[f] for f in FLAGS), r


def states(workers=(1, 2, 3, MAXW)):
    for a, t, w, l, r, z, h in itertools.product((True, False), (True, False), workers, (False, True), (False, True), (False, True), (False, True)):
        yield a, t, w, l, r, z, h


def groups(tier, what='P31'):
    th = tier == 'thorough'
    g = []
    if what == 'P31':
        n = len(list(states()))
        g += [dict(part='transitions', lo=i, hi=i + 32) for i in range(0, n, 32)]
        g += [dict(part='histories', first=c, depth=5 if th else 4) for c in range(len(CMDS))]
    elif what == 'P30':
        n = len(list(states()))
        g += [dict(part='battery', lo=i, hi=i + 16) for i in range(0, n, 16)]
        g += [dict(part='loops', k=k, mod=24, atop=a, sizes=(7, 70001, 213017) if not th else (1, 7, 64, 16385, 65537, 70001, 131073, 213017)) for a in (0, 1) for k in range(24)]
    else:
        g += [dict(part='ledger', threads=t, mod=m) for t in (0, 1) for m in range(4)] + [dict(part='ledgermisc', threads=t) for t in (0, 1)]
    return g


COUNT = {'P31': lambda n: {'states': len(list(states())), 'transitions': len(list(states())) * len(CMDS), 'traces_validated_against_impl': n}}


# ---------------------------------------------------------------- the real package
def top(e):
    """the largest accepted number of workers"""
    if not hasattr(e, 'maxw'):
        p = e.pc.thread_setworkers(100000)
        e.maxw = e.pc.thread_getworkers()
        e.pc.thread_setworkers(p)
    return e.maxw


def goto(e, s):
    d = dict(zip(FLAGS, s))
    pc = e.pc
    for f in ('atop', 'ledger', 'recycler', 'hook'):
        getattr(pc, f + ('_enable' if d[f] else '_disable'))()
    (pc.thread_enable if d['threads'] else pc.thread_disable)()
    pc.thread_setworkers(100000 if d['workers'] == MAXW else d['workers'])
    if pc.thread_zigzag() is not d['zigzag']:
        pc.thread_zigzag()


def do(e, c):
    pc, pn = e.pc, e.pn
    if c == 'zigzag':
        return pn.thread_zigzag()
    if c.startswith('workers'):
        w = c.split()[1]
        if w == 'x':
            try:
                return pn.thread_setworkers('x')
            except TypeError:
                return 'TypeError'
        r = pn.thread_setworkers(100000 if w == '1000' else int(w))
        return r
    if c == 'info':
        d = pn.atop_info()
        return 'dict' if type(d) is dict and len(d) > 300 and all(type(k) is tuple and type(k[0]) is str and type(k[1]) is int for k in d) else repr(d)[:200]
    if c == 'infoone':
        return sorted(pn.atop_info('add', 7))
    if c == 'infobad':
        return pn.atop_info('add', 99)
    if c == 'setw':
        a = pn.atop_setworkers('add', 7, 5)
        if a is False:
            return a
        b = pn.atop_info('add', 7)['MaxThreads']
        z = pn.atop_setworkers('add', 7, a)
        return 'int and back' if (b, z, pn.atop_info('add', 7)['MaxThreads']) == (5, 5, a) else (a, b, z)
    if c == 'setwbad':
        return [pn.atop_setworkers(*x) for x in (('add', 7, -1), ('add', 7, 64), ('nothing', 7, 1), ('add', 99, 1), ('add', -1, 1))]
    if c == 'cpustring':
        return type(pn.cpustring()).__name__
    if c in ('hook_enable', 'hook_disable'):
        getattr(pc, c)()
        return 'any'
    return getattr(pn, c, None)() if hasattr(pn, c) else getattr(pc, c)()


def observe(e, s):
    """what the query functions say, as flags (zig-zag is read by toggling it twice)"""
    pn, pc = e.pn, e.pc
    w = level(e, s[2], pc.thread_getworkers())
    z = pc.thread_zigzag()
    pc.thread_zigzag()
    hk = e.nd.mapslot() != e.slot
    return (pn.atop_isenabled(), pn.thread_isenabled(), w, pn.ledger_isenabled(), pn.recycler_isenabled(), not z, hk)


def setup(e):
    np = e.np
    if not e.pn:
        return
    e.slot = e.nd.mapslot()
    top(e)


def level(e, want, got):
    """a number of workers as the model counts (this machine may allow fewer)"""
    return want if got == (top(e) if want == MAXW else min(want, top(e))) else got


# ---------------------------------------------------------------- operations
def probes(np, e):
    i = np.arange(BIG, dtype='i4')
    a = (i * 7919 % 1001 - 500).astype('i4')
    b = (i * 31 % 97 + 1).astype('i4')
    f = a / 8.0
    f[5] = np.nan
    m = a % 3 == 0
    s = np.array([b'b', b'a', b'zz'])
    ops = [
        ('add', lambda: a + b), ('mul scalar', lambda: a * 3), ('sub strided', lambda: a[::2] - b[1::2]), ('div', lambda: f / b), ('compare', lambda: a < b), ('compare f', lambda: f >= 0.5), ('abs', lambda: np.abs(a)),
        ('sqrt', lambda: np.sqrt(b)), ('isnan', lambda: np.isnan(f)), ('and', lambda: m & (b > 5)), ('not', lambda: ~m), ('floor', lambda: np.floor(f)), ('maximum', lambda: np.maximum(f, 1.0)), ('shift', lambda: b << 2),
        ('sum', lambda: (a.sum(), m.sum(), a.sum(dtype='i8'))), ('max', lambda: (a.max(), f.max(), np.nanmin(f))), ('prod', lambda: (b % 3 + 1)[:20].prod()), ('cumsum', lambda: np.cumsum(a)), ('any', lambda: (m.any(), m.all())),
        ('axis', lambda: a.reshape(700, 100).sum(axis=0)), ('sort', lambda: np.sort(a)), ('sort f', lambda: np.sort(f[6:])), ('argsort', lambda: np.argsort(a, kind='stable')), ('small sort', lambda: np.sort(a[:100], kind='heapsort')),
        ('arange', lambda: np.arange(BIG, dtype='i8')), ('linspace', lambda: np.linspace(0, 1, 1000)), ('argmax', lambda: (a.argmax(), f.argmin())), ('mask', lambda: a[m]), ('fancy', lambda: a[b]), ('slice', lambda: a[3:9]),
        ('inplace', lambda: inplace(np, a, b)), ('where', lambda: np.where(m, a, b)), ('strings', lambda: np.sort(s)), ('small', lambda: (a[:7] + b[:7], a[:0] + 1, a[:1] * 2)), ('power', lambda: b ** 2), ('mod', lambda: a % 7), ('neg', lambda: -f),
        ('lexsort', lambda: (e.pn.lexsort if e.pn else np.lexsort)([a, b]).astype('i8')), ('logical', lambda: np.logical_and(a, b)), ('mixed', lambda: a + f), ('bool xor', lambda: m ^ True), ('float max f', lambda: f.astype('f4').min()),
    ]
    if e.pn:
        ops += [('pn.getitem', lambda: e.pn.getitem(a, b)), ('pn.getitem mask', lambda: e.pn.getitem(a, m)), ('pn.sort', lambda: e.pn.sort(a))]
    else:
        ops += [('pn.getitem', lambda: a[b]), ('pn.getitem mask', lambda: a[m]), ('pn.sort', lambda: np.sort(a))]
    return ops


def inplace(np, a, b):
    c = a.copy()
    c += b
    c *= 2
    c[::2] -= 1
    np.negative(c, out=c)
    return c


def norm(np, r):
    """index results of another width"""
    return r


def cases(g, e):
    np = e.np
    part = g['part']
    if part == 'transitions':
        pr = probes(np, e)
        short = [p for p in pr if p[0] in ('add', 'mask', 'max')]
        for k, s in enumerate(states()):
            if not g['lo'] <= k < g['hi']:
                continue
            for c in CMDS:
                def th(s=s, c=c):
                    t, r = model(s, c)
                    if e.pn:
                        goto(e, s)
                        o = observe(e, s)
                        r2 = do(e, c)
                        if c.startswith('workers') and type(r2) is int:
                            r2 = level(e, s[2], r2)
                        o2 = observe(e, t)
                    else:
                        o, r2, o2 = s, r, t
                    return o, r2, o2, [p[1]() for p in short]
                yield '%s from %s' % (c, s), th
        if e.pn:
            goto(e, BASE)
    elif part == 'histories':
        a = np.arange(1000)
        for n in range(0, g['depth']):
            for rest in itertools.product(range(len(CMDS)), repeat=n):
                if n >= 3 and any(CMDS[x] in ('info', 'infoone', 'infobad', 'cpustring', 'ledger_info', 'setwbad', 'workers x', 'workers 2', 'workers -5', 'init', 'initialize') for x in rest):
                    continue

                def th(rest=rest):
                    s = BASE
                    if e.pn:
                        goto(e, s)
                    out = []
                    for x in (g['first'],) + rest:
                        s, r = model(s, CMDS[x])
                        if e.pn:
                            r2 = do(e, CMDS[x])
                            r = level(e, r, r2) if type(r2) is int else r2
                        out.append(r)
                    return out, observe(e, s) if e.pn else s, a + 1
                yield ', '.join(CMDS[x] for x in (g['first'],) + rest), th
        if e.pn:
            goto(e, BASE)
    elif part == 'battery':
        pr = probes(np, e)
        for k, s in enumerate(states()):
            if not g['lo'] <= k < g['hi']:
                continue
            for nm, f in pr:
                def th(s=s, f=f):
                    if e.pn:
                        goto(e, s)
                    try:
                        return f()
                    finally:
                        if e.pn:
                            o = observe(e, s)
                            assert o == s, 'settings changed to %s' % (o,)
                yield '%s with %s' % (nm, ', '.join('%s=%s' % x for x in zip(FLAGS, s))), th
        if e.pn:
            goto(e, BASE)
    elif part == 'loops':
        yield from loops(g, e, np)
        if e.pn:
            goto(e, BASE)
    else:
        for l, t in ledger(g, e, np):
            yield l, lambda l=l, t=t: (l, t())


def same(np, x, y):
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and all(same(np, p, q) for p, q in zip(x, y))
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype or x.shape != y.shape:
        return False
    # numpy's log etc. choose between two routines by the position of the buffers
    return x.tobytes() == y.tobytes() or x.dtype.kind == 'f' and np.allclose(x, y, rtol=4 * np.finfo(x.dtype).eps, atol=0, equal_nan=True)


EXACT = ('add subtract multiply minimum maximum equal not_equal greater greater_equal less less_equal abs logical_not isinf isnan isfinite negative bitwise_and bitwise_or bitwise_xor invert bitwise_not left_shift right_shift '
         'logical_and logical_or sign true_divide floor_divide signbit floor ceil trunc rint sqrt').split()


def forms(u, x, y, np):
    def inplace():
        z = x.copy()
        u(*(z, y)[:u.nin], out=z)
        return z

    def inplace2():
        z = y.copy()
        u(x, z, out=z)
        return z
    if u.nin == 1:
        return [('new', lambda: u(x)), ('strided', lambda: u(x[::3])), ('in place', inplace)]
    f = [('new', lambda: u(x, y)), ('strided', lambda: u(x[::3], y[:len(x[::3])])), ('in place', inplace), ('in place 2', inplace2), ('scalar right', lambda: u(x, y[:1])), ('scalar left', lambda: u(x[:1], y)),
         ('scalar object', lambda: u(x, y[0]))]
    if u.__name__ == 'multiply' and x.dtype.char in 'fd':      # rounds differently in another order
        return f
    f += [('reduce', lambda: u.reduce(x)), ('reduce strided', lambda: u.reduce(x[1::2])), ('reduce initial', lambda: u.reduce(x, initial=y[0]))]
    if len(x) > 100:
        k = len(x) // 7 * 7
        f += [('reduce axis 0', lambda: u.reduce(x[:k].reshape(7, -1), axis=0)), ('reduce axis 1', lambda: u.reduce(x[:k].reshape(7, -1), axis=1))]
    if len(x) < 80000:
        f += [('accumulate', lambda: u.accumulate(x))]
    return f


def loops(g, e, np):
    import names
    sets = [(bool(g['atop']), t, w, False, False, z, False) for t in (True, False) for w, z in ((2, False), (MAXW, False), (MAXW, True)) if t or not z and w == 2]
    for k, (nm, ch) in enumerate(names.hooked(np)):
        if k % g['mod'] != g['k']:
            continue
        u = getattr(np, nm)
        for n in g['sizes']:
            i = np.arange(n)
            if ch in 'fd':
                x = ((i * 7919 % 4001 - 2000) / 8.0).astype(ch)      # sums are exact in any order
                y = ((i * 31 % 97 + 1) / 4.0).astype(ch)
                if nm.startswith('a'):
                    x, y = x / 256, y / 256
            elif ch == '?':
                x, y = i * 7919 % 3 == 0, i * 31 % 5 < 3
            else:
                x = (i * 2654435761 + (i >> 3) * 40503).astype('u8').view('i8').astype(ch)
                x[n // 2] = np.iinfo(ch).max
                y = (i * 31 % (7 if 'shift' in nm else 97) + 1).astype(ch)
            for fn, f in forms(u, x, y, np):
                for s in sets:
                    def th(f=f, s=s, ch=ch, nm=nm):
                        if nm in EXACT:
                            if e.pn:
                                goto(e, s)
                            return f()
                        if not e.pn:
                            return True
                        goto(e, (False, False, 2, False, False, False, False))
                        a = f()
                        goto(e, s)
                        b = f()
                        eps = 256 * np.finfo(ch).eps
                        return a.dtype == b.dtype and a.shape == b.shape and bool(np.allclose(a, b, rtol=eps, atol=eps, equal_nan=True)) or (a, b)
                    yield '%s %s %s n=%d with %s' % (nm, ch, fn, n, ', '.join('%s=%s' % q for q in zip(FLAGS, s))), th


def ledger(g, e, np):
    pc = e.pc

    def onoff(f):
        if not pc:
            return True, True, False
        goto(e, BASE)
        (pc.thread_enable if g['threads'] else pc.thread_disable)()
        x = f()
        pc.ledger_enable()
        try:
            y = f()
            st = pc.ledger_isenabled()
        finally:
            pc.ledger_disable()
        return same(np, x, y), st, pc.ledger_isenabled()
    import names
    if g['part'] == 'ledger':
        for k, (nm, ch) in enumerate(names.hooked(np)):
            if k % 4 != g['mod']:
                continue
            u = getattr(np, nm)
            for n in (0, 1, 7, 1000, BIG):
                i = np.arange(n)
                x = (i * 7 % 120).astype(ch)
                y = (i * 5 % 6 + 1).astype(ch)
                if u.nin == 1:
                    yield 'ledger %s %s n=%d' % (nm, ch, n), lambda u=u, x=x: onoff(lambda: u(x))
                    yield 'ledger %s %s n=%d strided' % (nm, ch, n), lambda u=u, x=x: onoff(lambda: u(x[::2]))
                    continue
                yield 'ledger %s %s n=%d' % (nm, ch, n), lambda u=u, x=x, y=y: onoff(lambda: u(x, y))
                yield 'ledger %s %s n=%d scalar' % (nm, ch, n), lambda u=u, x=x, y=y: onoff(lambda: (u(x, y[:1]), u(y[:1], x)))
                for meth in ('reduce', 'accumulate'):
                    if n:
                        def th(u=u, x=x, meth=meth):
                            try:
                                getattr(u, meth)(x[:3])
                            except Exception:
                                return True, True, False
                            return onoff(lambda: getattr(u, meth)(x))
                        yield 'ledger %s.%s %s n=%d' % (nm, meth, ch, n), th
    else:
        for nm, f in probes(np, e):
            yield 'ledger ' + nm, lambda f=f: onoff(f)
        a = np.arange(20)
        yield 'ledger 9000 operations', lambda: onoff(lambda: [a + i for i in range(9000)][-1])
        for ch in names.TYPES:
            for n in (0, 1, 2, 20, 1000, BIG):
                i = np.arange(n)
                x = (i * 7919 % 113).astype(ch)
                for kind in ('quicksort', 'heapsort', 'stable'):
                    yield 'ledger sort %s %s %d' % (ch, kind, n), lambda x=x, kind=kind: onoff(lambda: (np.sort(x, kind=kind), np.argsort(x, kind=kind)))
                if n:
                    yield 'ledger argmin %s %d' % (ch, n), lambda x=x: onoff(lambda: (x.argmin(), x.argmax()))
                if ch != '?':
                    yield 'ledger arange %s %d' % (ch, n), lambda ch=ch, n=n: onoff(lambda: np.arange(n % 120, dtype=ch))
