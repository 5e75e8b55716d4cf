"""P27 argmin/argmax/searchsorted, P28 arange: case spaces (see apidiff.py)."""
import itertools
import api_sort

NUM = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'e', 'f', 'd', 'g']
OTHER = ['S3', 'U2', 'M8[s]', 'm8[ms]', 'F', 'D', 'G', 'O']
RULE = {
    'P27': ('argmin, argmax (function and method, out and axis, keepdims through numpy) and searchsorted (both sides, with and without sorter) against numpy. Per element type: all sequences up to length 6 '
            'over 3 symbols of every triple class (extremes, nan, negative zero); every position of one displaced minimum, maximum or nan at lengths 1..70, 255..257 and around the worker pool limits; all layouts and '
            'axes of 1-3 dimensional arrays; lists, scalars, objects with own methods; searchsorted: all sorted arrays up to length 5 over the value table with every probe value, layouts, other types, sorters.'),
    'P28': ('numpy.arange (and linspace, indices, which use it) after the fill hook is installed: per type every start and step of a table that contains the extremes of the type, lengths 0..40 and around vector '
            'and worker pool chunk limits up to 200,000 elements with 0, 1, 3 and 6 workers, integer and float arguments, dates, durations, complex, half precision; byte-swapped dtype.')}


def groups(tier, what='argm'):
    g = []
    if what == 'argm':
        for dt in NUM + OTHER:
            g += [dict(dt=dt, part='small'), dict(dt=dt, part='displaced'), dict(dt=dt, part='geom'), dict(dt=dt, part='search')]
        g.append(dict(dt='d', part='special'))
        g += [dict(dt=dt, part='large') for dt in '?bhilqfdg']
    else:
        for dt in NUM + ['F', 'D', 'M8[s]', 'm8[ms]', 'M8[D]', 'O']:
            g += [dict(dt=dt, part='arange'), dict(dt=dt, part='arangelen')]
            g += [dict(dt=dt, part='arangelarge', workers=w) for w in ((0, 1, 3, 6) if tier == 'thorough' else (0, 3))]
        g.append(dict(dt='d', part='arangemisc', workers=3))
    return g


def search(np, e, dt, T):
    pn = e.pn
    ss = pn.searchsorted if pn else np.searchsorted
    base = [0, 2, 4, 6, 9]
    for n in range(0, 5):
        for s in itertools.combinations_with_replacement(base, n):
            a = T[list(s)] if n else T[:0]
            for side in ('left', 'right'):
                yield 'searchsorted(%s %s, table, %s)' % (dt, s, side), lambda a=a, side=side: ss(a, T, side=side)
                yield 'searchsorted(%s %s, table[::-1], %s)' % (dt, s, side), lambda a=a, side=side: ss(a, T[::-1], side=side)
    for n in range(1, 5):
        for p in itertools.permutations(range(n)):
            a = np.empty(n, T.dtype)
            for r, i in enumerate(p):
                a[i] = T[base[r]]
            for side in ('left', 'right'):
                yield 'searchsorted(%s, table, %s, sorter=%s)' % (dt, side, p), lambda a=a, side=side, p=p: ss(a, T, side=side, sorter=np.array(p))
    for n in (1, 7, 64, 1000, 70000):
        i = np.arange(n)
        a = T[np.minimum(i * 10 // n, 9)]
        for form, f in (('plain', lambda: a), ('step', lambda: np.repeat(a, 2)[::2]), ('list', lambda: a.tolist()), ('swapped', lambda: a.astype(a.dtype.newbyteorder()) if a.dtype.kind != 'O' else a)):
            if n > 1000 and form == 'list':
                continue
            yield 'searchsorted(%s %s[%d])' % (dt, form, n), lambda f=f: ss(f(), T)
            yield 'searchsorted(%s %s[%d], scalar)' % (dt, form, n), lambda f=f: ss(f(), T[3])
            yield 'searchsorted(%s %s[%d], 2-d)' % (dt, form, n), lambda f=f: ss(f(), T.reshape(2, 5), 'right')
    for bad in (dict(side='middle'), dict(sorter=np.array([0.5])), dict(sorter=np.array([0, 1, 2])), dict(sorter=np.array([5, 6]))):
        yield 'searchsorted %s' % bad, lambda bad=bad: ss(T[:2], T, **bad)
    yield 'searchsorted of 2-d', lambda: ss(T.reshape(2, 5), T)


def cases(g, e):
    np = e.np
    dt, part = g['dt'], g['part']
    if e.pc:
        (e.pc.thread_enable if part.endswith('large') and g.get('workers', 3) or part == 'arangemisc' else e.pc.thread_disable)()
        e.pc.thread_setworkers(g.get('workers', 3) or 3)
    from apidiff import one
    if part.startswith('arange'):
        yield from arange(g, e, np)
        return
    pn = e.pn
    amin, amax = (pn.sort.__globals__['argmin'], pn.sort.__globals__['argmax']) if pn else (np.argmin, np.argmax)
    T = api_sort.table(np, dt)

    def both(label, a, **kw):
        yield 'argmin(%s, %s)' % (label, kw), lambda: (amin(a, **kw), a.argmin(**kw), np.argmin(a, **kw))
        yield 'argmax(%s, %s)' % (label, kw), lambda: (amax(a, **kw), a.argmax(**kw), np.argmax(a, **kw))
    if part == 'small':
        for syms in ((0, 4, 9), (3, 4, 5), (8, 7, 0), (6, 7, 8)):
            for n in range(0, 7):
                for s in itertools.product(syms, repeat=n):
                    yield from both('%s %s' % (dt, s), T[list(s)] if n else T[:0])
    elif part in ('displaced', 'large'):
        sizes = list(range(1, 71)) + [127, 128, 129, 255, 256, 257] if part == 'displaced' else [16383, 16384, 16385, 65536, 65537, 131073]
        for n in sizes:
            for base in (2, 5):
                for v in (0, 7, 9):
                    for p in (range(n) if n < 300 else (0, 1, 2, n // 2, n - 2, n - 1)):
                        a = T[np.full(n, base)]
                        a[p] = T[v]
                        yield from both('%s n=%d all %d but [%d]=%d' % (dt, n, base, p, v), a)
                        if n > 3 and p % 3 == 0 and p + 2 < n:
                            b = a.copy()
                            b[p + 2] = T[v]
                            yield from both('%s n=%d all %d but [%d,%d]=%d' % (dt, n, base, p, p + 2, v), b)
    elif part == 'geom':
        for shape in ((0,), (5,), (17,), (40,), (0, 3), (3, 0), (4, 5), (7, 1), (1, 7), (3, 40), (40, 3), (2, 3, 4), (3, 1, 5), (2, 0, 3)):
            n = int(np.prod(shape))
            i = np.arange(n)
            for pat in (i * 7 % 10, (i * i + 3) % 9, 9 - i % 10):
                a = T[pat].reshape(shape)
                w = np.repeat(np.repeat(a, 2, axis=-1), 2, axis=0)
                forms = [('C', a), ('F', np.asfortranarray(a)), ('T', a.T), ('rev', a[::-1]), ('rev last', a[..., ::-1]), ('step', w[::2, ...][..., ::2])]
                if a.dtype.kind != 'O':
                    forms.append(('swapped', a.astype(a.dtype.newbyteorder())))
                    m = np.zeros(a.nbytes + 1, 'u1')[1:].view(a.dtype).reshape(shape)
                    m[...] = a
                    forms.append(('misaligned', m))
                for nm, f in forms:
                    for axis in (None, 0, 1, 2, -1, -2, 5):
                        for kw in ({}, dict(out=1)):
                            if kw:
                                if axis not in (0, -1) or axis >= f.ndim:
                                    continue
                                sh = list(f.shape)
                                del sh[axis]
                                for odt in ('i8', 'i4', 'f8'):
                                    def th(f=f, axis=axis, sh=sh, odt=odt):
                                        o = np.zeros(sh, odt)
                                        r = amin(f, axis=axis, out=o)
                                        return r, o, r is o
                                    yield 'argmin(%s %s %s, axis=%s, out=%s)' % (dt, shape, nm, axis, odt), th
                            else:
                                yield from both('%s %s %s' % (dt, shape, nm), f, axis=axis)
    elif part == 'search':
        yield from search(np, e, dt, T)
    elif part == 'special':
        class Own:
            def argmin(self, *a, **k):
                return 'own', a, k

            def argmax(self, axis=None):
                return 'own max', axis

        class Sub(np.ndarray):
            pass
        for nm, v in (('list', [3, 1, 2]), ('nested list', [[3, 1], [0, 9]]), ('tuple', (1.5, 0.5)), ('int', 5), ('str', 'abc'), ('None', None), ('empty list', []), ('matrix', np.matrix([[3, 1], [0, 9]])), ('masked', np.ma.array([3, 1, 2], mask=[0, 1, 0])),
                      ('sub', np.arange(4)[::-1].view(Sub)), ('ragged', [[1], [2, 3]]), ('range', range(5)), ('bytes', b'xyz'), ('np.int8', np.int8(4)), ('0-d', np.array(3)), ('set', {1, 2}), ('dict', {})):
            for axis in (None, 0, 1, -1):
                yield 'argmin(%s, %s)' % (nm, axis), lambda v=v, axis=axis: amin(v, axis=axis)
                yield 'argmax(%s, %s)' % (nm, axis), lambda v=v, axis=axis: amax(v, axis)
        yield 'own', lambda: (amin(Own()), amin(Own(), 3), str(amax.__name__))


def arange(g, e, np):
    dt, part = g['dt'], g['part']
    d = np.dtype(dt)
    k = d.kind

    def call(*a, **kw):
        return lambda: np.arange(*a, **kw)
    if part == 'arangemisc':
        for n in (0, 1, 2, 3, 10, 1000, 16384, 16385, 50000, 100001):
            for a, b in ((0, 1), (-3.7, 12.1), (1e-300, 1e300), (0, n), (1, -1), (0.1, 0.7)):
                yield 'linspace(%s, %s, %d)' % (a, b, n), lambda a=a, b=b, n=n: (np.linspace(a, b, n), np.linspace(a, b, n, endpoint=False), np.linspace(a, b, n, dtype='i4'))
            yield 'arange(%d) forms' % n, lambda n=n: (np.arange(n), np.arange(float(n)), np.arange(np.int8(n % 100)), np.arange(np.float32(n)), np.arange(n, dtype='>i4'), np.arange(n, dtype='>f8'), np.arange(0, n, 0.5, dtype='f4'))
            yield 'indices(%d)' % n, lambda n=n: (np.indices((3, n)), np.mgrid[0:n], np.mgrid[0:1:5j], np.ogrid[0:n:3], np.r_[0:n:2])
            yield 'tri, eye %d' % n, lambda n=n: (np.tri(min(n, 300)), np.eye(min(n, 300)), np.vander(np.arange(min(n, 20))), np.unravel_index(np.arange(n % 1000), (10, 100)))
        for a in ((0, 0), (5, 0, -1), (0, 5, 0), (0, float('nan')), (0, float('inf')), (float('nan'), 3), (0, 1, 1e-30), (1, 2, 3, 'd'), (), (None,), ('a',), (0, 3, 'b'), (1j,), (0, 10, 2j)):
            yield 'arange%s' % (a,), call(*a)
        return
    if k == 'M':
        st = [np.datetime64(x, d.str[4:-1] if 0 else np.datetime_data(d)[0]) for x in ('1970-01-01', '2020-02-29', '1900-03-01', 'NaT')]
        steps = [np.timedelta64(x, np.datetime_data(d)[0]) for x in (1, -1, 7, 1000)]
    elif k == 'm':
        st = [np.timedelta64(x, 'ms') for x in (0, -5, 1000, 2**40)]
        steps = [np.timedelta64(x, 'ms') for x in (1, -1, 7, 1000)]
    elif k in 'iu':
        m, lo = int(np.iinfo(d).max), int(np.iinfo(d).min)
        st = [0, 1, 5, m, m - 1, lo, lo + 1, m // 2, -1, -7]
        steps = [1, -1, 2, 3, -3, 7, m, lo, m // 2 + 1, 100]
    elif k == 'b':
        st, steps = [0, 1], [1]
    elif k == 'O':
        st, steps = [0, 5, 2**70], [1, -3, 2**65]
    elif k == 'c':
        st, steps = [0, 1 + 2j, -0.5], [1, 0.1, -3, 1 + 0j]
    else:
        st = [0.0, -0.0, 0.1, 1 / 3, -2.7, 1e16, 1e-300, 16777216.0, 1e30, 5e-324, 65504.0, 123456.789]
        steps = [1.0, 0.1, -0.1, 1 / 3, 1e-3, -7.7, 1e10, 1e-10, 2.0**-149, 3e-45]
    if part == 'arange':
        lens = list(range(0, 12)) + [15, 16, 17, 31, 33, 40]
    elif part == 'arangelen':
        lens = list(range(12, 140)) + [255, 256, 257, 1000, 4097]
        st, steps = st[:3] + st[-2:], steps[:4]
    else:
        lens = [8191, 16383, 16384, 16385, 16386, 32767, 32768, 32769, 32770, 49152, 49153, 65537, 100001, 131072, 200000]
        st, steps = st[:3] + st[-2:], steps[:4]
    for s in st:
        for step in steps:
            for n in lens:
                if k == 'b' and n > 2:
                    continue

                def th(s=s, step=step, n=n):
                    stop = s + step * n if k not in 'fcO' or n < 4 else s + step * (n - 0.5)
                    if k == 'O':
                        stop = s + step * n
                    return np.arange(s, stop, step, dtype=d)
                yield 'arange(%r, +%d, %r, %s)' % (s, n, step, dt), th

                def th2(s=s, step=step, n=n):
                    # the fill function called with the first two elements of the type itself
                    a = np.zeros(n, d)
                    if k in 'iu':
                        a[0:2] = np.array([s & (2**64 - 1), (s + step) & (2**64 - 1)], 'u8').astype(d)
                    elif k == 'b':
                        a[1:2] = True
                    else:
                        a[0:1] = np.array([s]).astype(d)
                        a[1:2] = a[0:1] + np.array([step]).astype(d)
                    e.nd.fill(a)
                    return a
                if k in 'iufb' and n > 2:
                    yield 'fill(%r, %r, n=%d, %s)' % (s, step, n, dt), th2
