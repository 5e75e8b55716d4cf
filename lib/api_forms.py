"""P18: every call form of a ufunc, with the package and with numpy alone (see apidiff.py)."""
import itertools
from names import INT, FLT

BIN = ('add subtract multiply minimum maximum true_divide floor_divide equal not_equal less less_equal greater greater_equal bitwise_and bitwise_or bitwise_xor '
       'left_shift right_shift logical_and logical_or').split()
BIN2 = 'power remainder fmin fmax logical_xor copysign hypot'.split()
UN = 'absolute negative sign invert logical_not isnan isinf isfinite signbit floor ceil trunc rint sqrt'.split()
UN2 = 'square reciprocal positive conjugate'.split()
RED = 'add multiply minimum maximum bitwise_and bitwise_or bitwise_xor logical_and logical_or'.split()
NUM = '?bBhHiIlLqQefdgFD'
HOOK = '?bBhHiIlLqQfd'
REP = '?bHilQfd'
RULE = {'P18': (
    'Ufuncs called in every form: all pairs of 17 operand types with and without dtype=, casting= and out= of every type; all where= masks of 10 elements and runs of longer ones; all pairs of 16 operand shapes and '
    'layouts (0-d, scalar, empty, broadcast, reversed, strided, transposed, misaligned, byte-swapped, read-only, zero stride, subclasses); every axis and tuple of axes of reductions over 1-4 dimensional C, F, '
    'reversed and strided arrays with keepdims, initial, where, dtype and out; accumulate along every axis; all reduceat index vectors of up to 3 indices; ufunc.at with all short index vectors; outer; every buffer '
    'size class; in-place operators with every right operand type; overlapping outputs at every offset; masked arrays, matrices, records, dates, durations, complex, object and string operands; the functions of numpy '
    'that are built on these (cumsum, mean, clip, diff, unique, ...) - on lengths 0 to 40, around the vector and 8192 element buffer boundaries and above the threading limit, with and without worker threads.')}


def groups(tier):
    th = tier == 'thorough'
    g = []
    for a in NUM:
        g += [dict(part='cast', dt=a), dict(part='out', dt=a)]
    for a in (HOOK if th else REP):
        g += [dict(part='where', dt=a), dict(part='red', dt=a), dict(part='accum', dt=a), dict(part='at', dt=a), dict(part='overlap', dt=a), dict(part='bufsize', dt=a)]
        for t in (0, 1):
            g += [dict(part='large', dt=a, threads=t), dict(part='redlarge', dt=a, threads=t)]
    for a in HOOK + 'gFDe':
        g += [dict(part='shape', dt=a), dict(part='inplace', dt=a), dict(part='func', dt=a, threads=0)]
    g += [dict(part='func', dt=a, threads=1) for a in REP]
    g += [dict(part='other', threads=t) for t in (0, 1)]
    return g


def vals(np, dt, small=False):
    d = np.dtype(dt)
    if d.kind == 'b':
        return np.array([0, 1, 1, 0, 1, 0, 0], '?')
    if d.kind in 'iu':
        i = np.iinfo(d)
        v = [0, 1, 2, 3, 7, 5, 6] if small else [0, 1, 2, i.max, i.min, 3, i.max // 3, (-1 if d.kind == 'i' else 9), 7]
        return np.array(v, d)
    v = [0.0, 1, 2, 3, -4, 5, 0.5] if small else [0.0, 1.5, np.nan, -2.5, np.inf, 3, -np.inf, -7.25, 0.5]
    r = np.array(v, d)
    if d.kind == 'c':
        r = r + 1j * r[::-1]
    return r


def N(np, r):
    """nan is nan, whatever its sign and payload"""
    if isinstance(r, (tuple, list)):
        return type(r)(N(np, x) for x in r)
    if isinstance(r, np.ndarray) and not isinstance(r, np.ma.MaskedArray) and r.dtype.kind in 'fc' and r.dtype.names is None:
        r = r.copy('A') if isinstance(r, np.matrix) else r.copy()
        if r.dtype.kind == 'c':
            for p in (r.real, r.imag):
                p[np.isnan(p)] = np.nan
        else:
            r[np.isnan(r)] = np.nan
        return r
    if isinstance(r, np.floating) and r != r:
        return type(r)('nan')
    return r


def fill(np, dt, n, small=False, k=0):
    v = vals(np, dt, small)
    return v[(np.arange(n) * 2 + k + np.arange(n) // len(v)) % len(v)]


def layouts(np, a):
    """the same values in other layouts (1-d or more)"""
    yield 'plain', a
    yield 'rev', np.ascontiguousarray(a[::-1])[::-1]
    w = np.zeros((a.shape[0] * 3,) + a.shape[1:], a.dtype)
    w[1::3] = a
    yield 'step3', w[1::3]
    if a.dtype.kind not in 'O':
        yield 'swapped', a.astype(a.dtype.newbyteorder())
        m = np.zeros(a.nbytes + 1, 'u1')[1:].view(a.dtype).reshape(a.shape)
        m[...] = a
        yield 'misaligned', m
        r = np.zeros(a.shape, [('x', 'u1'), ('v', a.dtype), ('y', 'u2')])
        r['v'] = a
        yield 'field', r['v']
    ro = a.copy()
    ro.flags.writeable = False
    yield 'readonly', ro
    if a.ndim > 1:
        yield 'F', np.asfortranarray(a)
        yield 'last rev', np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        yield 'last step', np.repeat(a, 2, axis=-1)[..., ::2]
        yield 'moved', np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)


def cases(g, e):
    np, part, dt = e.np, g['part'], g.get('dt')
    if e.pc:
        (e.pc.thread_enable if g.get('threads') else e.pc.thread_disable)()
        e.pc.thread_setworkers(3)
    np.setbufsize(8192)
    for label, f in PART[part](np, e, dt, g):
        yield '%s %s %s' % (part, dt or '', label), lambda f=f: N(np, f())


def binops(np, names=None):
    return [(n, getattr(np, n)) for n in (names or BIN)]


def p_cast(np, e, dt, g):
    for b in NUM:
        for n in (7, 40):
            x, y = fill(np, dt, n), fill(np, b, n, k=1)
            for nm, f in binops(np, BIN + BIN2):
                yield '%s(%s, %s) n=%d' % (nm, dt, b, n), lambda f=f, x=x, y=y: f(x, y)
            for nm, f in binops(np):
                yield '%s(%s, %s scalar) n=%d' % (nm, dt, b, n), lambda f=f, x=x, y=y: (f(x, y[5]), f(y[5], x), f(x, y[5:6]), f(x[3], y[5]))
        for nm in ('add', 'multiply', 'less', 'maximum', 'true_divide', 'bitwise_xor', 'left_shift', 'logical_or'):
            f = getattr(np, nm)
            for casting in ('no', 'safe', 'same_kind', 'unsafe'):
                yield '%s(%s, %s, dtype=%s, casting=%s)' % (nm, dt, dt, b, casting), lambda f=f, b=b, c=casting: f(fill(np, dt, 21, True), fill(np, dt, 21, True, 1), dtype=None if nm == 'less' else b, casting=c)
                yield '%s(%s, %s, casting=%s)' % (nm, dt, b, casting), lambda f=f, b=b, c=casting: f(fill(np, dt, 21, True), fill(np, b, 21, True, 1), casting=c)
    for x in (2, -3, 2.5, True, 1 + 2j, 300, 2 ** 40, 2 ** 63) + (() if dt in 'gFD' else (2 ** 70,)):      # numpy itself crashes on bitwise_and(longdouble, 2 ** 70)
        for nm, f in binops(np):
            if x == 2 ** 70 and 'shift' in nm:
                continue
            yield '%s(%s, %r)' % (nm, dt, x), lambda f=f, x=x: f(fill(np, dt, 35), x)
            yield '%s(%r, %s)' % (nm, x, dt), lambda f=f, x=x: f(x, fill(np, dt, 35))
    for nm in UN + UN2:
        if nm == 'absolute' and dt in 'FD':      # numpy's own vector and scalar loops differ in the last bit, and which one runs depends on the addresses
            continue
        f = getattr(np, nm)
        for n in (0, 1, 7, 40, 8193):
            yield '%s(%s) n=%d' % (nm, dt, n), lambda f=f, n=n: f(fill(np, dt, n, nm == 'sqrt'))
        for b in NUM:
            for casting in ('same_kind', 'unsafe'):
                yield '%s(%s, dtype=%s, casting=%s)' % (nm, dt, b, casting), lambda f=f, b=b, c=casting: f(fill(np, dt, 21, True), dtype=b, casting=c)
    for n in (8191, 8192, 8193, 16385, 70000):
        for b in 'bHlfd':
            for nm in ('add', 'less', 'maximum', 'multiply'):
                f = getattr(np, nm)
                yield '%s(%s, %s) n=%d' % (nm, dt, b, n), lambda f=f, b=b, n=n: f(fill(np, dt, n), fill(np, b, n, k=1))


def p_out(np, e, dt, g):
    """out of every type and layout"""
    for b in NUM:
        for nm in ('add', 'subtract', 'multiply', 'less', 'equal', 'minimum', 'true_divide', 'floor_divide', 'bitwise_and', 'right_shift', 'logical_and', 'absolute', 'negative', 'isnan', 'floor', 'sqrt',
                   'logical_not'):
            f = getattr(np, nm)
            if nm == 'absolute' and dt in 'FD':
                continue
            for casting in ('same_kind', 'unsafe'):
                if nm == 'isnan' and dt in 'fd' and b == '?':      # numpy 1.26 itself is wrong for a strided output of 16 or more elements (P16 decides these)
                    continue
                for n in (7, 40):
                    def th(f=f, b=b, c=casting, n=n):
                        base = np.full(2 * n + 1, 7, b)
                        r = []
                        for o in (base[:n], base[1::2], base[n + 1:][::-1]):
                            if o.shape != (n,):
                                o = o[:n]
                            base[...] = 7
                            x, y = fill(np, dt, n, True), fill(np, dt, n, True, 1)
                            q = f(x, y, out=o, casting=c) if f.nin == 2 else f(x, out=o, casting=c)
                            r += [q is o, base.copy()]
                        return r
                    yield '%s(%s, out=%s, casting=%s) n=%d' % (nm, dt, b, casting, n), th
    for nm in ('add', 'less', 'minimum', 'negative', 'isfinite'):
        f = getattr(np, nm)
        if nm == 'isfinite' and dt in 'fd':
            continue
        for lay in range(11):
            for n in (5, 33):
                def th(f=f, lay=lay, n=n):
                    a = fill(np, dt, n * 4).reshape(4, n)
                    L = list(layouts(np, np.zeros((4, n), f(a, a).dtype if f.nin == 2 else f(a).dtype)))
                    if lay >= len(L):
                        return None
                    o = L[lay][1]
                    q = f(a, a[::-1], out=o) if f.nin == 2 else f(a, out=o)
                    return q is o, o
                yield '%s(%s, out layout %d) n=%d' % (nm, dt, lay, n), th


def p_where(np, e, dt, g):
    masks = [np.array([m >> i & 1 for i in range(10)], '?') for m in range(1024)]
    for nm in ('add', 'less', 'maximum', 'negative', 'isnan', 'logical_not', 'multiply'):
        f = getattr(np, nm)
        x, y = fill(np, dt, 10), fill(np, dt, 10, k=2)
        def th(m, f=f, x=x, y=y):
            o = np.full(10, 1, f(x, y).dtype if f.nin == 2 else f(x).dtype)
            (f(x, y, out=o, where=m) if f.nin == 2 else f(x, out=o, where=m))
            return o
        for k, m in enumerate(masks):
            yield '%s where mask %d' % (nm, k), lambda m=m, th=th: th(m)
    for nm in ('add', 'less_equal', 'minimum', 'subtract', 'absolute', 'isinf'):
        f = getattr(np, nm)
        for n in (33, 70, 257, 8200, 70000):
            for pat in ('alt', 'third', 'run', 'tail', 'head', 'none', 'all', '2d', 'scalar', 'int', 'strided'):
                def th(f=f, n=n, pat=pat):
                    i = np.arange(n)
                    m = {'alt': i % 2 == 0, 'third': i % 3 == 1, 'run': (i // 40) % 2 == 0, 'tail': i > n - 9, 'head': i < 9, 'none': i < 0, 'all': i >= 0, '2d': (i % 5 != 0), 'scalar': True,
                         'int': (i % 2 == 0), 'strided': np.repeat(i % 4 != 0, 2)[::2]}[pat]
                    x, y = fill(np, dt, n), fill(np, dt, n, k=2)
                    d = f(x, y).dtype if f.nin == 2 else f(x).dtype
                    if pat == '2d':
                        x, y = np.stack([x, y]), y
                    o = np.full(x.shape, 1, d)
                    (f(x, y, out=o, where=m) if f.nin == 2 else f(x, out=o, where=m))
                    return o
                yield '%s where %s n=%d' % (nm, pat, n), th


def operands(np, dt, small=False):
    a = fill(np, dt, 15, small)
    M = a.reshape(3, 5)
    yield 'scalar', a[7]
    yield '0-d', np.array(a[6])
    yield '(1)', a[3:4]
    yield '(0)', a[:0]
    yield '(5)', a[5:10]
    yield '(5) zero stride', np.broadcast_to(a[2:3], (5,))
    yield '(3,1)', np.ascontiguousarray(M[:, 1:2])
    yield '(1,5)', M[1:2]
    for k, x in layouts(np, M):
        yield '(3,5) ' + k, x
    yield '(2,3,5)', np.stack([M, M[::-1]])
    yield '(2,1,5)', np.stack([M[:1], M[2:]])
    yield '(3,0)', M[:, :0]
    yield '(2,3,5) F', np.asfortranarray(np.stack([M, M[::-1]]))
    yield '(5,3,2).T', np.ascontiguousarray(np.stack([M, M[::-1]]).T).T
    yield 'matrix', np.asmatrix(M)
    yield 'masked', np.ma.array(M, mask=M == M[1, 1])


def p_shape(np, e, dt, g):
    ops = list(operands(np, dt, dt in 'gFDe'))
    for nm in ('add', 'multiply', 'less', 'equal', 'minimum', 'subtract', 'true_divide', 'bitwise_or', 'logical_and', 'left_shift'):
        f = getattr(np, nm)
        for (ka, a), (kb, b) in itertools.product(ops, ops):
            yield '%s(%s, %s)' % (nm, ka, kb), lambda f=f, a=a, b=b: f(a, b)
    for nm in UN:
        if nm == 'absolute' and dt in 'FD':
            continue
        f = getattr(np, nm)
        for ka, a in ops:
            yield '%s(%s)' % (nm, ka), lambda f=f, a=a: f(a)
    for nm in ('add', 'less', 'maximum', 'multiply'):
        f = getattr(np, nm)
        for (ka, a), (kb, b) in itertools.product(ops, ops):
            yield '%s.outer(%s, %s)' % (nm, ka, kb), lambda f=f, a=a, b=b: f.outer(a, b)
    # lengths and layouts
    for nm in ('add', 'less_equal', 'maximum', 'negative', 'logical_not', 'isfinite', 'absolute'):
        if nm == 'absolute' and dt in 'FD':
            continue
        f = getattr(np, nm)
        for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 129]:
            x, y = fill(np, dt, n), fill(np, dt, n, k=3)
            if f.nin == 1:
                for ka, a in layouts(np, x):
                    yield '%s(%s) n=%d' % (nm, ka, n), lambda f=f, a=a: f(a)
            else:
                for ka, a in layouts(np, x):
                    for kb, b in layouts(np, y):
                        yield '%s(%s, %s) n=%d' % (nm, ka, kb, n), lambda f=f, a=a, b=b: f(a, b)
    # order and subok, keepdims and the like
    for nm in ('add', 'less'):
        f = getattr(np, nm)
        for k, a in ops:
            for order in 'CFAK':
                yield '%s(%s, order=%s)' % (nm, k, order), lambda f=f, a=a, o=order: (lambda r: (r, r.strides if hasattr(r, 'strides') else None))(f(a, a, order=o))
            yield '%s(%s, subok=False)' % (nm, k), lambda f=f, a=a: f(a, a, subok=False)


def exact(np, dt, n, nm, k=0):
    """values for which the order of a reduction does not matter"""
    if nm == 'multiply' and np.dtype(dt).kind in 'fc':
        return np.array([1, 2, .5, -1, 1, 1, 1], dt)[(np.arange(n) * 3 + k) % 7]
    if np.dtype(dt).kind in 'fc' and nm in ('minimum', 'maximum'):
        return np.array([1, 2, -5, 7, 3.5, -1, 9], dt)[(np.arange(n) * 3 + k + np.arange(n) // 7) % 7]
    if np.dtype(dt).kind in 'fc':
        return np.array([1, 2, -5, 7, 3, -1, 4], dt)[(np.arange(n) * 3 + k + np.arange(n) // 7) % 7]
    return fill(np, dt, n, False, k)


def p_red(np, e, dt, g):
    shapes = [(0,), (1,), (2,), (7,), (33,), (70,), (0, 3), (3, 0), (1, 1), (3, 5), (5, 3), (2, 33), (33, 2), (4, 70), (70, 4), (2, 3, 4), (3, 1, 5), (2, 0, 3), (5, 4, 17), (17, 4, 5), (2, 2, 3, 9)]
    for nm in RED + ['subtract', 'true_divide', 'bitwise_and']:
        f = getattr(np, nm)
        for shape in shapes:
            n = int(np.prod(shape))
            a0 = exact(np, dt, n, nm).reshape(shape)
            for k, a in layouts(np, a0):
                axes = [None] + list(range(len(shape))) + list(itertools.combinations(range(len(shape)), 2)) + [(), -1]
                if nm in ('subtract', 'true_divide'):
                    axes = list(range(len(shape)))
                for ax in axes:
                    for keep in ((False, True) if k in ('plain', 'F') else (False,)):
                        yield '%s.reduce(%s %s, axis=%s, keepdims=%s)' % (nm, shape, k, ax, keep), lambda f=f, a=a, ax=ax, keep=keep: f.reduce(a, axis=ax, keepdims=keep)
            if nm in ('subtract', 'true_divide'):
                continue
            a1 = a0 if dt == '?' else a0 % 3      # no rounding in any type
            for ax in (None, 0, -1):
                for init in (0, 1, 5, None):
                    yield '%s.reduce(%s, axis=%s, initial=%s)' % (nm, shape, ax, init), lambda f=f, a=a0, ax=ax, i=init: f.reduce(a, axis=ax, initial=i)
                for pat in range(3):
                    m = (np.arange(n) % (pat + 2) != 0).reshape(shape)
                    yield '%s.reduce(%s, axis=%s, where %d)' % (nm, shape, ax, pat), lambda f=f, a=a0, ax=ax, m=m: f.reduce(a, axis=ax, where=m, initial=1)
                for b in 'bHlfd?':
                    yield '%s.reduce(%s, axis=%s, dtype=%s)' % (nm, shape, ax, b), lambda f=f, a=a1, ax=ax, b=b: f.reduce(a, axis=ax, dtype=b)

                    def th(f=f, a=a1, ax=ax, b=b):
                        r = f.reduce(a, axis=ax)
                        o = np.full(np.shape(r), 3, b)
                        q = f.reduce(a, axis=ax, out=o)
                        return q is o, o
                    yield '%s.reduce(%s, axis=%s, out=%s)' % (nm, shape, ax, b), th
    for nm in ('minimum', 'maximum', 'fmin', 'fmax', 'logical_or', 'logical_and', 'logical_xor'):
        f = getattr(np, nm)
        for n in range(1, 40):
            a = fill(np, dt, n)
            for k in range(3):
                yield '%s.reduce n=%d %d' % (nm, n, k), lambda f=f, a=a, k=k: f.reduce(np.roll(a, k))


def p_accum(np, e, dt, g):
    for nm in RED + ['subtract', 'true_divide', 'less', 'left_shift', 'floor_divide']:
        f = getattr(np, nm)
        for shape in [(0,), (1,), (5,), (33,), (70,), (3, 5), (5, 33), (33, 5), (2, 3, 9), (0, 3)]:
            a0 = exact(np, dt, int(np.prod(shape)), nm).reshape(shape)
            for k, a in layouts(np, a0):
                for ax in range(len(shape)):
                    yield '%s.accumulate(%s %s, axis=%d)' % (nm, shape, k, ax), lambda f=f, a=a, ax=ax: f.accumulate(a, axis=ax)

                    def th(f=f, a=a, ax=ax):
                        o = a.copy()
                        f.accumulate(o, axis=ax, out=o)
                        return o
                    yield '%s.accumulate(%s %s, axis=%d, out=itself)' % (nm, shape, k, ax), th
        for n in (1, 2, 5, 40):
            a = exact(np, dt, n, nm)
            idx = list(itertools.product(range(n), repeat=2))[:400] + [(i,) for i in range(n)] + (list(itertools.product(range(n), repeat=3)) if n < 6 else [(0, 3, 33), (33, 3, 0), (5, 5, 5), (0, 39, 1)])
            for ix in idx:
                yield '%s.reduceat(n=%d, %s)' % (nm, n, ix), lambda f=f, a=a, ix=ix: f.reduceat(a, list(ix))
        m = exact(np, dt, 60, nm).reshape(6, 10)
        for ax, n in ((0, 6), (1, 10)):
            for ix in itertools.product(range(n), repeat=2):
                yield '%s.reduceat(6x10, %s, axis=%d)' % (nm, ix, ax), lambda f=f, ix=ix, ax=ax, m=m: f.reduceat(m, list(ix), axis=ax)
        for ix in ([0, 8192], [1, 9000, 40], [69999], [0, 65536, 66000], [3, 69000]):
            yield '%s.reduceat(70000, %s)' % (nm, ix), lambda f=f, ix=ix: f.reduceat(exact(np, dt, 70000, nm), ix)
        for n in (8193, 70000):
            yield '%s.accumulate(%d)' % (nm, n), lambda f=f, n=n: f.accumulate(exact(np, dt, n, nm))
            yield '%s.accumulate(2x%d)' % (nm, n), lambda f=f, n=n: f.accumulate(exact(np, dt, 2 * n, nm).reshape(2, n), axis=1)
            yield '%s.accumulate(%dx2)' % (nm, n), lambda f=f, n=n: f.accumulate(exact(np, dt, 2 * n, nm).reshape(n, 2), axis=0)


def p_at(np, e, dt, g):
    for nm in RED + ['subtract', 'true_divide', 'negative', 'absolute', 'logical_not', 'left_shift', 'less']:
        f = getattr(np, nm)
        for L in (0, 1, 2, 3, 4):
            for ix in itertools.product((0, 1, 4, -1), repeat=L):
                def th(f=f, ix=ix):
                    a = exact(np, dt, 5, nm)
                    i = np.array(ix, 'i8')
                    (f.at(a, i, exact(np, dt, len(ix), nm, 1)) if f.nin == 2 else f.at(a, i))
                    return a
                yield '%s.at(%s)' % (nm, ix), th
        for n, k in ((40, 100), (9000, 20000), (70000, 70000)):
            def th(f=f, n=n, k=k):
                a = exact(np, dt, n, nm)
                i = (np.arange(k) * 7) % n
                (f.at(a, i, exact(np, dt, k, nm, 1)) if f.nin == 2 else f.at(a, i))
                return a
            yield '%s.at(%d of %d)' % (nm, k, n), th
            for b in 'bdl':
                def th(f=f, n=n, b=b):
                    a = exact(np, dt, n, nm)
                    f.at(a, slice(None, None, 2), np.array(1, b)) if f.nin == 2 else f.at(a, slice(1, None))
                    return a
                yield '%s.at(slice of %d, %s)' % (nm, n, b), th


def p_overlap(np, e, dt, g):
    for nm in ('add', 'subtract', 'multiply', 'minimum', 'less', 'bitwise_xor', 'negative', 'absolute', 'logical_not', 'left_shift'):
        f = getattr(np, nm)
        for n in (5, 12, 40, 100, 16390, 70000):
            for da in (0, 1, 2, 3, 8, 32):
                for db in (0, 1, 5, 9):
                    if n > 200 and (da not in (0, 1, 8) or db not in (0, 1)):
                        continue
                    for back in (0, 1):
                        def th(f=f, n=n, da=da, db=db, back=back):
                            w = exact(np, dt, n + 40, nm)
                            s = [w[da:da + n], w[db:db + n], w[4:4 + n]]
                            if back & 1:
                                s[0] = s[0][::-1]
                            if nm == 'less':
                                w2 = w.view('u1')
                                o = w2[:n].view('?')
                            else:
                                o = s[2]
                            (f(s[0], s[1], out=o) if f.nin == 2 else f(s[0], out=o))
                            return w
                        yield '%s overlap n=%d +%d +%d%s' % (nm, n, da, db, ' rev' if back else ''), th
        for n in (3, 9, 40):
            for w1, w2 in (('m', 'm.T'), ('m.T', 'm'), ('m', 'm[::-1]'), ('m[:, ::-1]', 'm'), ('m[0]', 'm'), ('m[:, :1]', 'm')):
                def th(f=f, n=n, w1=w1, w2=w2):
                    m = exact(np, dt, n * n, nm).reshape(n, n)
                    x, y = eval(w1, dict(m=m)), eval(w2, dict(m=m))
                    if nm == 'less':
                        return f(x, y)
                    (f(x, y, out=m) if f.nin == 2 else f(np.broadcast_to(x, m.shape), out=m))
                    return m
                yield '%s overlap %dx%d %s %s' % (nm, n, n, w1, w2), th


def p_bufsize(np, e, dt, g):
    for bs in (16, 32, 80, 1024, 8192, 65536, 10 ** 6):
        for nm in ('add', 'less', 'maximum', 'multiply', 'bitwise_and'):
            f = getattr(np, nm)
            for b in ('d', 'h', dt):
                for n in (5, 16, 17, 100, 1025, 8193, 70000, 140000):
                    if n > 70000 and bs < 1024:
                        continue

                    def th(f=f, b=b, n=n, bs=bs):
                        old = np.setbufsize(bs)
                        try:
                            x, y = exact(np, dt, n, nm), exact(np, b, n, nm, 1)
                            r = [f(x, y), f(x.astype(x.dtype.newbyteorder()), y)]
                            if nm != 'less':
                                r += [f.reduce(x.astype(x.dtype.newbyteorder())), f.reduce(y if np.dtype(b).kind in 'bf' else y % (3 if nm == 'multiply' else 7), dtype=dt)]
                            return r
                        finally:
                            np.setbufsize(old)
                    yield '%s(%s, %s) n=%d bufsize=%d' % (nm, dt, b, n, bs), th


IOPS = ('+', '-', '*', '/', '//', '&', '|', '^', '<<', '>>', '**', '%')


def p_inplace(np, e, dt, g):
    code = {o: compile('a %s= b' % o, 'iop', 'exec') for o in IOPS}
    ecode = {o: compile('a %s b' % o, 'op', 'eval') for o in IOPS + ('==', '!=', '<', '<=', '>', '>=')}
    rhs = [('self', None), ('2', 2), ('0', 0), ('-1', -1), ('2.0', 2.0), ('0.5', 0.5), ('True', True), ('1j', 1j), ('list', 'list'), ('np8', np.int8(3)), ('nd0', np.array(2))] + ([] if dt == 'g' else [('None', None.__class__)]) + [(c, c) for c in NUM]
    for n in (1, 7, 40):
        for o in IOPS:
            for k, b in rhs:
                def th(o=o, b=b, n=n, k=k):
                    a = fill(np, dt, n, True)
                    r = a if k == 'self' else [2] * n if k == 'list' else None if k == 'None' else fill(np, b, n, True, 1) if isinstance(b, str) else b
                    d = dict(a=a, b=r)
                    q = a
                    exec(code[o], d)
                    return d['a'] is q, d['a']
                yield 'a %s= %s n=%d' % (o, k, n), th
        for o in ecode:
            for k, b in rhs:
                def th(o=o, b=b, n=n, k=k):
                    a = fill(np, dt, n, True)
                    r = a if k == 'self' else [2] * n if k == 'list' else None if k == 'None' else fill(np, b, n, True, 1) if isinstance(b, str) else b
                    out = [eval(ecode[o], dict(a=a, b=r)), eval(ecode[o], dict(a=r, b=a))]
                    return out
                yield 'a %s %s n=%d' % (o, k, n), th
    for n in (1, 40):
        yield 'unary operators n=%d' % n, lambda n=n: [abs(fill(np, dt, n)) if dt not in 'FD' else 0, +fill(np, dt, n, True) if dt != '?' else 0, divmod(fill(np, dt, n, True), fill(np, dt, n, True, 1)) if dt not in 'FD' else 0]
        yield 'negative n=%d' % n, lambda n=n: -fill(np, dt, n)
        yield 'invert n=%d' % n, lambda n=n: ~fill(np, dt, n)
        yield 'bool n=%d' % n, lambda n=n: bool(fill(np, dt, n).any())
    for n in (0, 1, 7, 40):
        for p in (-1, 0, 0.5, 1, 2, 3, 2.0):
            yield 'a ** %s n=%d' % (p, n), lambda n=n, p=p: np.array([0, 1, 4, 9, 1, 4, 0], dt)[np.arange(n) % 7] ** p


def p_large(np, e, dt, g):
    for nm in ('add', 'less', 'minimum', 'multiply', 'true_divide', 'negative', 'isnan', 'logical_not', 'sqrt'):
        f = getattr(np, nm)
        small = nm in ('sqrt', 'true_divide')
        for shape in ((65535,), (65536,), (65537,), (100000,), (2, 70000), (70000, 2), (300, 300), (3, 5, 9000), (131073,), (1, 70000), (70000, 1)):
            n = int(np.prod(shape))
            a = fill(np, dt, n, small).reshape(shape)
            b = fill(np, dt, n, small, 3).reshape(shape)
            if f.nin == 1:
                for k, x in layouts(np, a):
                    yield '%s(%s %s)' % (nm, shape, k), lambda f=f, x=x: f(x)
                continue
            for (ka, x), (kb, y) in itertools.product(layouts(np, a), layouts(np, b)):
                if ka == kb or 'plain' in (ka, kb):
                    yield '%s(%s %s, %s)' % (nm, shape, ka, kb), lambda f=f, x=x, y=y: f(x, y)
            for kb, y in (('scalar', b.ravel()[5]), ('row', b[:1]), ('last col', b[..., :1]), ('0-d', np.array(b.ravel()[8]))):
                yield '%s(%s, %s)' % (nm, shape, kb), lambda f=f, x=a, y=y: (f(x, y), f(y, x))

                def th(f=f, x=a, y=y):
                    o = np.asfortranarray(np.zeros(x.shape, f(x[:1], y).dtype))
                    f(x, y, out=o)
                    return o
                yield '%s(%s, %s, out F)' % (nm, shape, kb), th


def p_redlarge(np, e, dt, g):
    for nm in RED:
        f = getattr(np, nm)
        for shape in ((65535,), (65536,), (65537,), (81921,), (2, 70000), (70000, 2), (70000, 5), (300, 300), (131073,), (3, 2, 66000)):
            a = exact(np, dt, int(np.prod(shape)), nm).reshape(shape)
            for k, x in layouts(np, a):
                for ax in [None] + list(range(len(shape))):
                    yield '%s.reduce(%s %s, axis=%s)' % (nm, shape, k, ax), lambda f=f, x=x, ax=ax: f.reduce(x, axis=ax)
            m = (np.arange(a.size) % 3 != 0).reshape(shape)
            for ax in [None, 0]:
                yield '%s.reduce(%s, axis=%s, where)' % (nm, shape, ax), lambda f=f, a=a, ax=ax, m=m: f.reduce(a, axis=ax, where=m, initial=1)
                yield '%s.reduce(%s, axis=%s, initial=3)' % (nm, shape, ax), lambda f=f, a=a, ax=ax: f.reduce(a, axis=ax, initial=3)
                yield '%s.reduce(%s, axis=%s, zero stride)' % (nm, shape, ax), lambda f=f, a=a, ax=ax: f.reduce(np.broadcast_to(a.ravel()[1:2], a.shape), axis=ax)


def p_func(np, e, dt, g):
    lens = (0, 1, 2, 7, 33, 100) if not g['threads'] else (65536, 70001)
    F = {
        'cumsum': lambda a: np.cumsum(a), 'cumprod': lambda a: np.cumprod(exact(np, dt, a.size, 'multiply')), 'sum': lambda a: (a.sum(), np.sum(a, dtype='d' if a.dtype.kind != 'c' else 'D')),
        'prod': lambda a: np.prod(exact(np, dt, a.size, 'multiply')), 'mean': lambda a: np.mean(a), 'ptp': lambda a: np.ptp(a), 'diff': lambda a: np.diff(a), 'ediff1d': lambda a: np.ediff1d(a),
        'clip': lambda a: (np.clip(a, 1, 3), a.clip(2), np.clip(a, None, a[::-1])), 'minmax': lambda a: (a.min(), a.max(), np.amin(a), np.amax(a)), 'any': lambda a: (a.any(), a.all(), np.any(a != 0), np.all(a == a)),
        'unique': lambda a: np.unique(a, return_inverse=True, return_counts=True), 'isin': lambda a: np.isin(a, a[:3]), 'where': lambda a: np.where(a > 1, a, a * 2), 'nonzero': lambda a: (np.nonzero(a), np.count_nonzero(a), np.flatnonzero(a == a[:1])),
        'trapz': lambda a: np.trapz(a), 'nansum': lambda a: (np.nansum(a), np.nanmin(a), np.nanmax(a)), 'nan_to_num': lambda a: np.nan_to_num(a), 'allclose': lambda a: (np.allclose(a, a), np.isclose(a, a[::-1]), np.array_equal(a, a.copy()), np.array_equiv(a, a)),
        'equal': lambda a: (np.array_equal(a, a[::-1]), (a == a[::-1]).sum(), (a != a).any()), 'round': lambda a: (np.around(a), np.fix(a)), 'heaviside': lambda a: np.heaviside(a, 0.5), 'sort': lambda a: (np.sort(a), np.partition(a, a.size // 2)[a.size // 2] if a.size else 0),
        'median': lambda a: np.median(a), 'percentile': lambda a: np.percentile(a, [0, 50, 100]), 'histogram': lambda a: np.histogram(a, bins=[-10, 0, 1, 2, 5, 10]), 'digitize': lambda a: np.digitize(a, [0, 1, 2, 5]), 'bincount': lambda a: np.bincount(np.abs(a).astype('l') % 9),
        'cross': lambda a: np.cross(a[:3], a[1:4]) if a.size > 4 else 0, 'kron': lambda a: np.kron(a[:4], a[:5]), 'outer': lambda a: np.outer(a[:9], a[:40]), 'inner': lambda a: np.inner(a, a), 'dot': lambda a: np.dot(a, a), 'vdot': lambda a: np.vdot(a, a),
        'norm': lambda a: np.linalg.norm(a, 1), 'interp': lambda a: np.interp([0.5, 1.5], [0, 1, 2], [3, 4, 5]), 'roll': lambda a: np.roll(a, 2) + a, 'tri': lambda a: np.tril(np.outer(a[:7], a[:7])), 'sign': lambda a: np.sign(a), 'gradient': lambda a: np.gradient(a),
        'lexsort': lambda a: np.lexsort((a, a[::-1])), 'setops': lambda a: (np.intersect1d(a, a[:3]), np.setdiff1d(a, a[:2]), np.union1d(a, a[:2])), 'select': lambda a: np.select([a > 3, a > 1], [a, -a if a.dtype.kind != 'b' else a], 0),
        'piecewise': lambda a: np.piecewise(a, [a > 2], [1, 0]), 'apply': lambda a: np.apply_along_axis(np.sum, 0, a.reshape(-1, 1)), 'frompyfunc': lambda a: np.frompyfunc(lambda x: x, 1, 1)(a[:9]), 'add3': lambda a: a + a + a, 'expr': lambda a: (a * 2 + a) * (a + 1),
        'elide': lambda a: ((a + 1) * (a + 2) + (a + 3)), 'cmpchain': lambda a: (a > 1) & (a < 5) | ~(a == 3), 'var': lambda a: np.var(np.array([1, 3, 1, 3], dt) if a.size else a), 'average': lambda a: np.average(a, weights=np.ones(a.size)),
        'complex': lambda a: (a.real, a.imag, np.angle(a[:0])), 'searchsorted': lambda a: np.searchsorted(np.sort(a), a), 'convolve': lambda a: np.convolve(a[:20], a[:3]), 'einsum': lambda a: np.einsum('i,i', a, a), 'ma': lambda a: (np.ma.masked_less(a, 2) + 1).sum(),
        'masum': lambda a: [np.ma.array(a, mask=(np.arange(a.size) % 3 == 0)).sum(), np.ma.array(a, mask=(np.arange(a.size) % 2 == 0)).max(), np.ma.array(a, mask=(np.arange(a.size) % 2 == 0)) * 2],
        'str': lambda a: (repr(a), str(a)), 'tolist': lambda a: (a + a).tolist(), 'astype': lambda a: (a.astype('f8') if a.dtype.kind != 'c' else a, a.astype('i1') if a.dtype.kind in 'iub' else a), 'pad': lambda a: np.pad(a, 2, mode='maximum') if a.size else 0,
        'nditer': lambda a: [x + x for x in np.nditer(a[:5])], 'flat': lambda a: (a.flat[::2] + 1), 'take': lambda a: np.take(a, [0, -1]) + a[:1], 'put': lambda a: np.put_along_axis(a.copy(), np.arange(a.size), 1, 0),
        'copyto': lambda a: (lambda o: (np.copyto(o, a, where=a > 1), o))(np.zeros_like(a)), 'compress': lambda a: np.compress(a > 1, a), 'choose': lambda a: np.choose((a > 1).astype(int), [a, a * 2]), 'vectorize': lambda a: np.vectorize(lambda x: x)(a[:5]) if a.size else 0,
    }
    for n in lens:
        for o in (0, 1):
            a = exact(np, dt, n, 'add', o) if np.dtype(dt).kind in 'fc' else fill(np, dt, n, True, o)
            for nm, f in F.items():
                if n > 1000 and nm in ('str', 'tolist', 'convolve', 'frompyfunc', 'einsum', 'dot', 'inner', 'vdot', 'apply', 'trapz'):
                    continue
                yield '%s n=%d %d' % (nm, n, o), lambda f=f, a=a: f(a.copy())
                if n in (7, 33, 70001):
                    yield '%s n=%d %d strided' % (nm, n, o), lambda f=f, a=a: f(np.repeat(a, 2)[::2])
                    if nm not in ('str',):
                        yield '%s n=%d %d swapped' % (nm, n, o), lambda f=f, a=a: f(a.astype(a.dtype.newbyteorder()))
    for shape in ((3, 4), (4, 33), (2, 3, 5)) if not g['threads'] else ((2, 66000), (66000, 3)):
        a = exact(np, dt, int(np.prod(shape)), 'add').reshape(shape) if np.dtype(dt).kind in 'fc' else fill(np, dt, int(np.prod(shape)), True).reshape(shape)
        for nm in ('sum', 'min', 'max', 'any', 'all', 'mean', 'cumsum', 'ptp', 'argmin', 'argmax', 'sort', 'argsort', 'prod'):
            for ax in [None] + list(range(len(shape))):
                def th(nm=nm, a=a, ax=ax):
                    x = exact(np, dt, a.size, 'multiply').reshape(a.shape) if nm == 'prod' else a
                    if nm == 'argsort':
                        return np.argsort(x, axis=ax, kind='stable')
                    return getattr(np, nm)(x, axis=ax)
                yield '%s(%s, axis=%s)' % (nm, shape, ax), th


def p_other(np, e, dt, g):
    n0 = (5, 40) if not g['threads'] else (70000,)
    D = []
    for n in n0:
        i = np.arange(n)
        d = np.array('2020-01-01', 'M8[D]') + (i * 7) % 11
        d[3] = 'NaT'
        t = ((i * 5) % 9 - 4).astype('m8[h]')
        t[2] = 'NaT'
        s = np.array(['a', 'bb', '', 'abc', 'b'])[(i * 3) % 5]
        o = np.array([1, 2.5, 10 ** 30, -3, True], object)[i % 5]
        rec = np.zeros(n, [('x', 'i4'), ('y', 'f8')])
        rec['x'], rec['y'] = i % 7, i % 8 / 4
        D += [('date', n, d), ('delta', n, t), ('str', n, s), ('bytes', n, s.astype('S')), ('object', n, o), ('rec', n, rec), ('void', n, rec.view('V12')), ('half', n, ((i % 9) / 2).astype('e')),
              ('char', n, np.char.array(s)), ('mat', n, np.asmatrix(i % 7)), ('ma', n, np.ma.array(i % 7, mask=i % 3 == 0)),
              ('recarray', n, rec.view(np.recarray)), ('field', n, rec['y']), ('i4 field', n, rec['x'])]
    for (ka, n, a), (kb, m, b) in itertools.product(D, D):
        if n != m:
            continue
        for nm in ('add', 'subtract', 'multiply', 'true_divide', 'less', 'equal', 'not_equal', 'minimum', 'maximum', 'bitwise_and', 'logical_or', 'floor_divide'):
            f = getattr(np, nm)
            yield '%s(%s, %s) n=%d' % (nm, ka, kb, n), lambda f=f, a=a, b=b: f(a, b)
    for ka, n, a in D:
        for nm in UN + UN2 + ['isnat']:
            f = getattr(np, nm)
            yield '%s(%s) n=%d' % (nm, ka, n), lambda f=f, a=a: f(a)
        for nm in RED:
            f = getattr(np, nm)
            yield '%s.reduce(%s) n=%d' % (nm, ka, n), lambda f=f, a=a: f.reduce(a)
            yield '%s.accumulate(%s) n=%d' % (nm, ka, n), lambda f=f, a=a: f.accumulate(a)
        for nm in (() if ka == 'ma' else ('sort', 'unique')) + ('min', 'max', 'sum', 'mean', 'cumsum', 'argmax', 'any', 'all', 'diff'):
            yield '%s(%s) n=%d' % (nm, ka, n), lambda nm=nm, a=a: getattr(np, nm)(a)
        for x in (1, 2.5, np.timedelta64(3, 'h'), np.datetime64('2020-01-05'), 'bb', None, [1], (1, 2), {}, np.nan):
            for o in ('add', 'less', 'equal', 'multiply'):
                f = getattr(np, o)
                yield '%s(%s, %r) n=%d' % (o, ka, x, n), lambda f=f, a=a, x=x: (f(a, x), f(x, a))
    # objects with methods and array protocols of their own
    class U:
        def __array_ufunc__(self, u, method, *a, **k):
            return (u.__name__, method, len(a), sorted(k))
    class P(np.ndarray):
        pass
    class W:
        def __array__(self, dtype=None):
            return np.arange(5.0)
    class R:
        __array_priority__ = 100
        __array_ufunc__ = None
        def __radd__(self, o):
            return 'radd'
    for nm in ('add', 'less', 'minimum'):
        f = getattr(np, nm)
        yield '%s __array_ufunc__' % nm, lambda f=f: (f(np.arange(5.0), U()), f(U(), 1), f.reduce(U()), f.at(U(), [1], 2))
        yield '%s subclass' % nm, lambda f=f: (f(np.arange(5.0).view(P), 1), type(f.reduce(np.arange(5.0).view(P))).__name__)
        yield '%s __array__' % nm, lambda f=f: f(W(), 1)
    yield 'priority', lambda: np.arange(5.0) + R()
    for n in n0:
        with_err = ('%d' % n)
        for nm, f in (('divide', lambda n=n: np.ones(n) / 0), ('log', lambda n=n: np.log(-np.ones(n))), ('int', lambda n=n: np.ones(n, 'i4') // 0)):
            def th(f=f):
                with np.errstate(all='raise'):
                    return f()
            yield 'errstate %s %s' % (nm, with_err), th


PART = {k[2:]: v for k, v in list(globals().items()) if k.startswith('p_')}
