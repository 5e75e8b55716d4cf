"""P20 sort, P21 argsort: case spaces (see apidiff.py)."""
import itertools

NUM = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'e', 'g']
OTHER = ['S3', 'S1', 'S9', 'U2', 'U5', 'M8[s]', 'm8[ms]', 'F', 'D', 'V3', 'O']
RULE = {}
RULE['P20'] = RULE['P21'] = (
    'Per element type (15 numeric, strings, unicode, dates, complex, raw, objects) and kind (quick, heap, stable): all sequences over 2..5 symbols up to length 9; both '
    'halves ascending with every count of large elements per half, around the insertion limits (0-1 principle of the merges); every position of one displaced small, '
    'middle or largest/nan element in ascending, descending and constant arrays around the limits; 14 whole-array shapes for every length 0..129 and selected lengths '
    'up to 131,072 (worker pool on); median-of-three killers; every axis of 1-3 dimensional arrays in C, Fortran, transposed, strided, reversed, byte-swapped and '
    'misaligned layouts.')
KINDS = ['quicksort', 'heapsort', 'stable']


def table(np, dt):
    """ten values of a type in ascending order (the last ones nan)"""
    d = np.dtype(dt)
    k = d.kind
    if k == 'b':
        v = [False] * 5 + [True] * 5
    elif k == 'u':
        m = int(np.iinfo(d).max)
        v = [0, 1, 2, 3, 7, m // 2, m // 2 + 1, m - 2, m - 1, m]
    elif k == 'i':
        m = int(np.iinfo(d).max)
        v = [-m - 1, -m, -7, -1, 0, 1, 2, 100, m - 1, m]
    elif k == 'f':
        v = [-np.inf, -3, -1.5, -0.0, 0.0, 0.5, 1.5, np.inf, np.nan, np.nan]
    elif k == 'c':
        v = [complex(-1, 0), complex(-1, 3), 0, complex(0, 1), 1, complex(1, 1), complex(2, -1), complex(2, np.nan), complex(np.nan, 1), complex(np.nan, np.nan)]
    elif k == 'S':
        v = [b'', b'A', b'a', b'aB', b'ab', b'abc', b'abd', b'b', b'\x80', b'\xff\xff']
    elif k == 'U':
        v = ['', 'A', 'a', 'aB', 'ab', 'abc', 'abd', '\xff', '\u20ac', '\U0001f600']
    elif k in 'Mm':
        v = np.array([-5, -1, 0, 1, 2, 3, 10, 2**62, -2**63, -2**63], 'i8').view(d)
    elif k == 'V':
        v = np.frombuffer(bytes(range(10)) * d.itemsize, dtype='u1')[:10 * d.itemsize].reshape(10, -1).copy().view(d).ravel()
    elif k == 'O':
        v = list(range(10))
    return np.array(v, dtype=d)


def small(np):
    """all short sequences over few symbols"""
    for k, n in [(5, 0), (5, 1), (5, 2), (5, 3), (5, 4), (4, 5), (3, 6), (2, 7), (2, 8), (2, 9)]:
        for s in itertools.product(range(k), repeat=n):
            yield 'seq' + ''.join(map(str, s)), np.array([(0, 4, 5, 8, 7)[x] if k > 2 else (4, 8)[x] for x in s], dtype='i8')


def merges(np, sizes):
    """both halves ascending, every number of large values in either half (0-1 principle for the merge step)"""
    for n in sizes:
        m = n // 2
        for i in range(0, m + 1):
            for j in range(0, n - m + 1):
                a = np.full(n, 3)
                a[m - i:m] = 6
                a[n - j:] = 6
                yield 'merge n=%d i=%d j=%d' % (n, i, j), a


def displaced(np, sizes, step=1):
    """sorted, reversed and constant sequences with one element replaced"""
    for n in sizes:
        up = (np.arange(n) * 6) // max(n, 1) + 1
        for nm, base in (('up', up), ('down', up[::-1]), ('const', np.full(n, 4))):
            for p in range(0, n, step):
                for v in (0, 5, 9):
                    a = base.copy()
                    a[p] = v
                    yield '%s n=%d [%d]=%d' % (nm, n, p, v), a


def shapes(np, n):
    """whole-array shapes of a length, as ranks 0..9"""
    i = np.arange(n)
    yield 'up', i * 8 // max(n, 1)
    yield 'down', (n - 1 - i) * 8 // max(n, 1)
    yield 'const', np.full(n, 5)
    yield 'pipe', np.minimum(i, n - 1 - i) * 16 // max(n, 1) % 8
    yield 'saw3', i % 3 + 3
    yield 'saw7', i * 5 % 7
    yield 'mix', (i * 7919 + i * i) % 10
    yield 'nanfirst', np.where(i < n // 3, 9, i % 8)
    yield 'nanlast', np.where(i > n - n // 3, 9, (n - i) % 8)
    yield 'nans', np.full(n, 9)
    yield 'alternate', (i % 2) * 4 + 2
    yield 'lowlast', np.where(i == n - 1, 0, 5)
    yield 'highfirst', np.where(i == 0, 7, 2)
    yield 'nanmid', np.where(i == n // 2, 9, (i // 3) % 8)


def killer(np, n):
    """median-of-three killer (drives the quick sort to its heap sort fallback)"""
    k = n // 2
    a = np.zeros(n, 'i8')
    for i in range(k):
        a[i] = i + 1 if i % 2 == 0 else k + i + (k % 2 == 0)
        a[k + i] = 2 * (i + 1)
    return a


def wide(np, dt, pat, n):
    """distinct values where the type has them: rank pattern refined by the position"""
    d = np.dtype(dt)
    return table(np, dt)[pat]


def groups(tier):
    th = tier == 'thorough'
    g = []
    for dt in NUM + OTHER:
        for part in ('small', 'merge', 'displaced', 'shape', 'geom'):
            if part == 'merge' and th:
                g += [dict(dt=dt, part=part, sizes=[n]) for n in list(range(14, 72)) + [127, 128, 129]]
                continue
            g.append(dict(dt=dt, part=part))
    big = NUM + ['S3', 'U2', 'S1', 'S9', 'M8[s]', 'F', 'V3']
    for dt in big:
        if th or dt in '?BhiLfd' or dt in ('S3', 'F'):
            g.append(dict(dt=dt, part='large', workers=3))
        if th:
            g += [dict(dt=dt, part='large', workers=w) for w in (0, 1, 6)]
    g.append(dict(dt='d', part='killer'))
    g.append(dict(dt='i', part='killer'))
    return g


def inputs(g, e, tier):
    np = e.np
    dt = g['dt']
    T = table(np, dt)
    p = g['part']
    if p == 'small':
        it = small(np)
    elif p == 'merge':
        it = merges(np, g.get('sizes') or [16, 17, 18, 31, 32, 33, 34, 35])
    elif p == 'displaced':
        it = displaced(np, [15, 16, 17, 29, 30, 31, 32, 33, 63, 64, 65] + ([100, 127, 128, 129, 200, 255, 256, 257] if tier == 'thorough' else []))
    elif p == 'shape':
        it = ((nm + ' n=%d' % n, a) for n in list(range(0, 130)) + [200, 255, 256, 257, 1000, 1025] + ([16385] if tier == 'thorough' or dt in NUM else []) for nm, a in shapes(np, n))
    elif p == 'large':
        it = ((nm + ' n=%d' % n, a) for n in (65535, 65536, 65537, 65543, 81921, 100003, 131072) for nm, a in shapes(np, n))
    elif p == 'killer':
        for n in list(range(62, 402, 4)) + [1000, 2000, 5000, 20000]:
            a = killer(np, n).astype(dt)
            yield 'killer n=%d' % n, a
            yield 'killer reversed n=%d' % n, a[::-1].copy()
        return
    for label, pat in it:
        yield label, T[pat]


def equiv(np, r, stable):
    """canonical form of a sorted result: exact if stable, else up to the order of equal elements"""
    if stable or r.dtype.kind not in 'fc':
        return r
    if r.dtype.kind == 'c':
        return np.isnan(r), np.where(np.isnan(r), 0, r) + 0, np.isnan(r.real), np.isnan(r.imag)
    # numpy's own vector sort does not keep the sign of zeros apart
    return np.isnan(r), np.where(np.isnan(r), np.array(0, r.dtype), r) + np.array(0, r.dtype)


def geom(e, dt, big):
    """memory layouts, axes and byte orders"""
    np = e.np
    T = table(np, dt)
    for n in (0, 1, 2, 5, 17, 40) + ((70000,) if big else ()):
        i = np.arange(3 * n + 3)
        pat = (i * 7919 + i * i // 3) % 10
        x = T[pat]
        yield 'plain n=%d' % n, lambda x=x, n=n: x[:n].copy()
        yield 'step 2 n=%d' % n, lambda x=x, n=n: x.copy()[:2 * n:2]
        yield 'step 3 n=%d' % n, lambda x=x, n=n: x.copy()[1:1 + 3 * n:3]
        yield 'reversed n=%d' % n, lambda x=x, n=n: x[:n].copy()[::-1]
        yield 'swapped n=%d' % n, lambda x=x, n=n: x[:n].astype(x.dtype.newbyteorder()) if x.dtype.kind not in 'VO' else x[:n].copy()
        yield 'swapped step 2 n=%d' % n, lambda x=x, n=n: x[:2 * n].astype(x.dtype.newbyteorder())[::2] if x.dtype.kind not in 'VO' else x[:n].copy()

        def mis(x=x, n=n):
            if x.dtype.hasobject:
                return x[:n].copy()
            b = np.zeros(n * x.dtype.itemsize + 1, 'u1')
            v = b[1:].view(x.dtype)
            v[...] = x[:n]
            return v
        yield 'misaligned n=%d' % n, mis
    for sh in ((3, 4), (4, 40), (40, 4), (2, 3, 33), (0, 5), (5, 0), (), (1,), (1, 1), (32, 33), (3, 0, 2)) + (((1, 70000), (70000, 2)) if big else ()):
        n = 1
        for s in sh:
            n *= s
        i = np.arange(n)
        x = T[(i * 7919 + i * i // 3) % 10].reshape(sh)
        yield 'C %r' % (sh,), lambda x=x: x.copy()
        yield 'F %r' % (sh,), lambda x=x: np.asfortranarray(x).copy(order='F')
        yield 'T %r' % (sh,), lambda x=x: x.copy().T


def cases(g, e):
    np = e.np
    dt = g['dt']
    if e.pc:
        (e.pc.thread_enable if g['part'] in ('large', 'geom') else e.pc.thread_disable)()
        e.pc.thread_setworkers(g.get('workers', 3))
    tier = g.get('tier', 'quick')
    psort = e.pn.sort if e.pn else np.sort
    mode = g['what']
    heavy = g['part'] == 'large'
    if g['part'] == 'geom':
        for label, mk in geom(e, dt, dt in ('?bBhHiIlLfdqQ' if tier == 'thorough' else '?Bhidf')):
            a0 = mk()
            ax = [None, -1] + list(range(a0.ndim))
            for axis in ax:
                for kind in KINDS:
                    st = kind == 'stable'
                    if mode == 'sort':
                        if axis is not None:
                            def t(mk=mk, kind=kind, axis=axis, st=st):
                                a = mk()
                                a.sort(axis=axis, kind=kind)
                                return [equiv(np, a, st)]
                            yield 'a.sort(axis=%r,kind=%s) %s %s' % (axis, kind, dt, label), t
                        yield 'np.sort(axis=%r,kind=%s) %s %s' % (axis, kind, dt, label), lambda mk=mk, kind=kind, axis=axis, st=st: [equiv(np, np.sort(mk(), axis=axis, kind=kind), st)]
                        yield 'pn.sort(axis=%r,kind=%s) %s %s' % (axis, kind, dt, label), lambda mk=mk, kind=kind, axis=axis, st=st: [equiv(np, psort(mk(), axis=axis, kind=kind), st)]
                    else:
                        pas = e.pn.sort.__globals__['argsort'] if e.pn else np.argsort
                        for nm, f in (('np', np.argsort), ('pn', pas)):
                            def t(f=f, mk=mk, kind=kind, axis=axis, st=st):
                                a = mk()
                                r = f(a, axis=axis, kind=kind)
                                if st:
                                    return r
                                b = a.ravel() if axis is None else a
                                return [r.shape, equiv(np, np.take_along_axis(b, r, 0 if axis is None else axis), False) if b.ndim else r, permutation(np, r, 0 if axis is None else axis)]
                            yield '%s.argsort(axis=%r,kind=%s) %s %s' % (nm, axis, kind, dt, label), t
        return
    for label, a in inputs(g, e, tier):
        for kind in KINDS:
            st = kind == 'stable'
            if mode == 'sort':
                def t(a=a, kind=kind, st=st):
                    b = a.copy()
                    b.sort(kind=kind)
                    return equiv(np, b, st)
                yield 'a.sort(%s) %s %s' % (kind, dt, label), t
                if heavy or g['part'] == 'shape':
                    yield 'pn.sort(%s) %s %s' % (kind, dt, label), lambda a=a, kind=kind, st=st: equiv(np, psort(a, kind=kind), st)
            else:
                def t(a=a, kind=kind, st=st):
                    r = a.argsort(kind=kind)
                    if st:
                        return r
                    return equiv(np, a[r], False), permutation(np, r, 0)
                yield 'a.argsort(%s) %s %s' % (kind, dt, label), t


def permutation(np, r, axis):
    if r.ndim == 0 or r.size == 0:
        return True
    c = np.zeros(r.shape, 'i8')
    np.put_along_axis(c, r, 1, axis)
    return bool((c == 1).all())
