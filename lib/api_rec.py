"""P26 recarray_to_colmajor: case spaces (see apidiff.py)."""
import itertools

T = ['i1', 'u1', '?', 'i2', 'u2', 'f2', 'i4', 'u4', 'f4', 'i8', 'u8', 'f8', 'f16', 'c8', 'c16', 'c32', 'S1', 'S3', 'S7', 'S8', 'S9', 'S17', 'U1', 'U3', 'M8[s]', 'm8[ms]',
     '>i2', '>i4', '>f8', '>M8[us]', '>U2']
ODD = ['O', 'V5', 'S0', 'U0', ('i4', (3,)), ('f8', (2, 2)), [('p', 'i2'), ('q', 'f8')], ('i4', (0,)), 'V0', ('S3', (2,)), [('o', 'O')]]
RULE = {'P26': (
    'recarray_to_colmajor against {name: a[name] copied}. Every field type alone at every offset 0..9 and padding 0..9 and lengths 0..20; all ordered pairs of field types (31 x 31) at lengths '
    '1, 3, 9, 21, 140; records of 1 to 40 fields; field item sizes 1..40 in every alignment; lengths around the block (16,384 / record size rows) and chunk (16,384 rows) limits with the worker pool '
    'on and off; special fields (object, void, empty, subarray, nested, title, overlapping, selected); layouts (strided, reversed, 2-d, 0-d, transposed, read-only, misaligned, recarray); '
    'the extension function with every mismatched argument (must raise).')}


def groups(tier):
    g = [dict(part='single', lo=i, hi=i + 4) for i in range(0, len(T), 4)]
    g += [dict(part='pair', lo=i, hi=i + 4) for i in range(0, len(T), 4)]
    g += [dict(part='many'), dict(part='size'), dict(part='special'), dict(part='layout'), dict(part='args')]
    g += [dict(part='large', workers=w) for w in ((1, 3, 6) if tier == 'thorough' else (3,))] + [dict(part='large', workers=0)]
    return g


def fill(np, dt, n, shape=None):
    """n records with every byte of every field set"""
    a = np.zeros(n, dt)
    if dt.hasobject:
        for k in range(n):
            for j, f in enumerate(dt.names):
                if dt.fields[f][0].kind == 'O':
                    a[f][k] = ('v', k, j)
                elif not dt.fields[f][0].hasobject:
                    a[f][k] = k % 100 + j
                else:
                    a[f]['o'][k] = k
        return a.reshape(shape) if shape is not None else a
    b = a.view('u1') if dt.itemsize and n else np.zeros(0, 'u1')
    i = np.arange(b.size, dtype='u8')
    b[:] = ((i * np.uint64(2654435761)) >> np.uint64(13)) % np.uint64(251)
    names = dt.names or ()
    for f in names:
        k = dt.fields[f][0]
        if k.kind in 'U':     # valid code points
            x = np.array([chr(65 + (j * 7) % 900) * (1 + j % max(1, k.itemsize // 4)) for j in range(n)], k) if n else np.zeros(0, k)
            a[f] = x
        elif k.kind == 'b':
            a[f] = np.arange(n) % 3 == 1
    return a.reshape(shape) if shape is not None else a


def cases(g, e):
    np = e.np
    if e.pc:
        if g['part'] == 'large' and g['workers']:
            e.pc.thread_enable()
            e.pc.thread_setworkers(g['workers'])
        else:
            e.pc.thread_disable()

    def conv(a, **kw):
        """the dictionary, and that its arrays are new, writable and plain"""
        if e.pn:
            d = e.pn.recarray_to_colmajor(a, **kw)
        else:
            d = {f: np.array(a[f]) for f in a.dtype.names}
        if not isinstance(d, dict):
            return d
        return [(k, np.asarray(v), type(v) is np.ndarray, v.flags.writeable, np.may_share_memory(a, v) and a.nbytes > 0) for k, v in d.items()], a.tobytes() if not a.dtype.hasobject else None

    def dt(*fields, **kw):
        return np.dtype(list(fields))

    part = g['part']
    if part == 'single':
        for t in T[g['lo']:g['hi']]:
            for off in range(10):
                for pad in range(10):
                    d = np.dtype(dict(names=['x'], formats=[t], offsets=[off], itemsize=off + np.dtype(t).itemsize + pad))
                    for n in (*range(0, 21), 33):
                        if off and pad and n not in (0, 1, 2, 4, 5, 8, 9, 12, 17):
                            continue
                        yield 'colmajor(%s at %d of %d)[%d]' % (t, off, d.itemsize, n), lambda d=d, n=n: conv(fill(np, d, n))
    elif part == 'pair':
        for t in T[g['lo']:g['hi']]:
            for u in T:
                d = dt(('x', t), ('y', u))
                for n in (1, 3, 9, 21, 140):
                    yield 'colmajor(%s, %s)[%d]' % (t, u, n), lambda d=d, n=n: conv(fill(np, d, n))
    elif part == 'many':
        for nf in (1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 40, 200):
            for al in (False, True):
                d = np.dtype([('f%d' % i, T[(i * 7 + nf) % len(T)]) for i in range(nf)], align=al)
                for n in (0, 1, 7, 8, 9, 63, 500, 2000):
                    for par in (True, False):
                        yield 'colmajor(%d fields, align %s, parallel %s)[%d]' % (nf, al, par, n), lambda d=d, n=n, par=par: conv(fill(np, d, n), parallel=par)
    elif part == 'size':
        for s in range(1, 41):
            for off in (0, 1, 3, 8):
                d = np.dtype(dict(names=['x', 'y'], formats=['S%d' % s, 'u2'], offsets=[off, off + s], itemsize=off + s + 2))
                for n in (1, 2, 5, 300):
                    yield 'colmajor(S%d at %d)[%d]' % (s, off, n), lambda d=d, n=n: conv(fill(np, d, n))
        for s in (16383, 16384, 16385, 32768, 100000):
            d = dt(('x', 'S%d' % s), ('y', 'i8'), ('z', 'i4'))
            for n in (1, 2, 3, 9, 20):
                yield 'colmajor(S%d, i8, i4)[%d]' % (s, n), lambda d=d, n=n: conv(fill(np, d, n))
    elif part == 'large':
        sets = [[('a', 'i8')], [('a', 'i1'), ('b', 'i2'), ('c', 'i4'), ('d', 'i8'), ('e', 'S5')], [('a', 'f4'), ('b', 'S20')], [('a', 'c32'), ('b', 'u1')], [('a', 'U3'), ('b', 'i4'), ('c', 'f8')]]
        for s in sets:
            d = dt(*s)
            rows = max(1, 32768 // (d.itemsize * 2))
            for n in sorted({rows - 1, rows, rows + 1, 2 * rows - 1, 2 * rows, 2 * rows + 1, 16383, 16384, 16385, 16387, 32767, 32768, 32769, 49152, 50000, 65536, 65541, 131072 + 5}):
                yield 'colmajor(%s)[%d]' % (s, n), lambda d=d, n=n: conv(fill(np, d, n))
            yield 'colmajor(%s, parallel=False)[50000]' % s, lambda d=d: conv(fill(np, d, 50000), parallel=False)
            yield 'colmajor(%s)[200,100]' % s, lambda d=d: conv(fill(np, d, 20000, (200, 100)))
            yield 'colmajor(%s)[::2 of 50000]' % s, lambda d=d: conv(fill(np, d, 50000)[::2])
            yield 'colmajor(%s)[::-1 of 50000]' % s, lambda d=d: conv(fill(np, d, 50000)[::-1])
    elif part == 'special':
        for o in ODD:
            for t in T[::5] + ODD:
                for order in (0, 1):
                    try:
                        d = dt(*[('x', t), ('y', o)][::1 if order else -1])
                    except Exception:
                        continue
                    for n in (0, 1, 2, 5, 30):
                        for par in (True, False):
                            yield 'colmajor(%s, parallel %s)[%d]' % (d, par, n), lambda d=d, n=n, par=par: conv(fill(np, d, n), parallel=par)
        for d in (np.dtype([(('title of x', 'x'), 'i4'), ('y', 'f8')]), np.dtype([(('X', 'x'), 'i4'), (('Y', 'y'), 'S3'), ('z', 'i8')]), np.dtype([]),
                  np.dtype(dict(names=['x', 'y', 'z'], formats=['i4', 'i2', 'i8'], offsets=[0, 2, 0])), np.dtype(dict(names=['z', 'y', 'x'], formats=['i8', 'f4', 'i2'], offsets=[6, 2, 0])),
                  np.dtype(dict(names=['x'], formats=['i8'], offsets=[0])), np.dtype(dict(names=[], formats=[], offsets=[], itemsize=8)), np.dtype([('', 'i4'), ('', 'i8')]), np.dtype([('é', 'i4')]),
                  np.dtype((np.record, [('x', 'i4'), ('y', 'S3')]))):
            for n in (0, 1, 2, 5, 30, 500):
                for par in (True, False):
                    yield 'colmajor(%s %s, parallel %s)[%d]' % (d, d.itemsize, par, n), lambda d=d, n=n, par=par: conv(fill(np, d, n), parallel=par)
        base = dt(('a', 'i4'), ('b', 'f8'), ('c', 'S5'), ('d', 'i2'), ('e', 'O'))
        plain = dt(('a', 'i4'), ('b', 'f8'), ('c', 'S5'), ('d', 'i2'), ('e', 'U2'))
        for b in (base, plain):
            for r in range(1, 5):
                for sel in itertools.permutations('abcde', r):
                    for n in (1, 12):
                        yield 'colmajor(a[%s] of %s)[%d]' % (list(sel), b, n), lambda b=b, n=n, sel=sel: conv(fill(np, b, n)[list(sel)])
        # not a record array: returned as it is
        for x in (np.arange(3), np.arange(3.0).reshape(3, 1), np.array(['a', 'b']), np.array([None]), np.zeros(0), np.zeros(2, 'M8[s]'), np.float64(3)):
            yield 'colmajor(%r)' % (x,), lambda x=x: (e.pn.recarray_to_colmajor(x) if e.pn else x) is x
        for x in (np.zeros(3, 'V4'), np.zeros(0, 'V4')):
            yield 'colmajor(%r) stays' % (x,), lambda x=x: ((lambda r: r is x or r == {})(e.pn.recarray_to_colmajor(x)) if e.pn else True)
    elif part == 'layout':
        for s in ([('a', 'i4'), ('b', 'f8'), ('c', 'S5'), ('d', 'i2'), ('e', 'u1')], [('a', 'i8')], [('a', 'S3')], [('a', 'i4'), ('o', 'O')], [('a', 'i4'), ('s', 'i2', (2,))]):
            d = dt(*s)
            for n in (0, 1, 2, 3, 9, 20, 100, 20000):
                big = 2 * n + 3
                forms = dict(
                    step2=lambda: fill(np, d, big)[:2 * n:2], step3=lambda: fill(np, d, 3 * n + 3)[:3 * n:3], reversed=lambda: fill(np, d, n)[::-1], rstep=lambda: fill(np, d, 2 * n + 1)[::-2],
                    tail=lambda: fill(np, d, big)[-n:] if n else fill(np, d, 0), one=lambda: fill(np, d, big)[1:2], onestep=lambda: fill(np, d, big)[1:2:7],
                    col=lambda: fill(np, d, 3 * n, (n, 3))[:, 1], c2=lambda: fill(np, d, 3 * n, (n, 3)), c2t=lambda: fill(np, d, 3 * n, (n, 3)).T, c3=lambda: fill(np, d, 6 * n, (2, n, 3)),
                    f2=lambda: np.asfortranarray(fill(np, d, 3 * n, (n, 3))), c2s=lambda: fill(np, d, 6 * n, (2 * n, 3))[::2], c2r=lambda: fill(np, d, 3 * n, (n, 3))[:, ::-1],
                    one2=lambda: fill(np, d, n, (1, n)), none2=lambda: fill(np, d, n, (n, 1)), bc=lambda: np.broadcast_to(fill(np, d, 1)[0:1], (n,)), bc2=lambda: np.broadcast_to(fill(np, d, n), (3, n)),
                    zerod=lambda: fill(np, d, 1).reshape(()), inner=lambda: fill(np, np.dtype([('h', 'u1'), ('r', d)]), n)['r'] if not d.hasobject else fill(np, d, n),
                    rec=lambda: fill(np, d, n).view(np.recarray), rec2=lambda: fill(np, d, 2 * n, (n, 2)).view(np.recarray), masked=lambda: np.array(np.ma.array(fill(np, d, n))))

                def ro():
                    x = fill(np, d, n)
                    x.flags.writeable = False
                    return x

                def mis():
                    if d.hasobject:
                        return fill(np, d, n)
                    m = np.zeros(n * d.itemsize + 1, 'u1')[1:].view(d)
                    m[:] = fill(np, d, n)
                    return m
                forms['readonly'], forms['misaligned'] = ro, mis
                if n == 20000:
                    forms = {k: forms[k] for k in ('step2', 'reversed', 'c2', 'c2t', 'col', 'readonly', 'misaligned', 'inner')}
                for k, f in forms.items():
                    for par in (True, False):
                        yield 'colmajor(%s %s, parallel %s)[%d]' % (s, k, par, n), lambda f=f, par=par: conv(f(), parallel=par)
        d = dt(('a', 'i4'), ('b', 'f8'))
        for par in (True, False):
            yield 'list', lambda: bad(lambda: conv([(1, 2)], parallel=par))
            yield 'None', lambda: bad(lambda: conv(None, parallel=par))
    elif part == 'args':
        d = dt(('a', 'i4'), ('b', 'f8'), ('c', 'S5'))
        n = 6

        def objs(*xs):
            r = np.empty(len(xs), 'O')
            for i, x in enumerate(xs):
                r[i] = x
            return r

        def good():
            return [fill(np, d, n), np.array([0, 4, 12]), objs(np.zeros(n, 'i4'), np.zeros(n, 'f8'), np.zeros(n, 'S5'))]

        def low(want, *args):
            """want: the function has to raise, or to give the fields"""
            if e.pc:
                try:
                    r = e.pc.recarray_to_colmajor(*args)
                except Exception as ex:
                    return 'raises'
                return [np.array(x) for x in args[2]] if want != 'raises' else 'returned %r' % (r,)
            return want

        def fields(a, offs, types):
            raw = np.ascontiguousarray(a)
            return [np.array(np.ndarray(raw.shape, t, raw.tobytes(), o, (d.itemsize,))) for o, t in zip(offs, types)]
        x = good()
        ok = fields(x[0], [0, 4, 12], ['i4', 'f8', 'S5'])
        yield 'valid', lambda: low(ok, *good())
        for k in range(3):
            for nm, v in (('None', None), ('int', 5), ('str', 'abc'), ('bytes', b'abc'), ('list', [1, 2]), ('tuple', (1,)), ('dict', {}), ('type', int), ('object', object()), ('float', 1.5), ('np.float64', np.float64(3)),
                          ('0-d', np.array(3)), ('empty', np.zeros(0)), ('i8[3]', np.arange(3)), ('O[3]', objs(None, 1, 'x')), ('O[3,1]', np.empty((3, 1), 'O')), ('record', fill(np, d, 4)), ('f8[3]', np.zeros(3))):
                if k == 1 and nm == 'i8[3]':
                    continue
                if k == 0 and nm == 'record':
                    continue

                def th(k=k, v=v):
                    a = good()
                    a[k] = v
                    return low('raises', *a)
                yield 'argument %d is %s' % (k, nm), th
        for cnt in (0, 1, 2, 4, 5):
            yield '%d arguments' % cnt, lambda cnt=cnt: low('raises', *(good() + [1, 2])[:cnt])
        size = d.itemsize
        for o in (-2**63, -2**31, -9, -1, 0, 1, size - 9, size - 8, size - 7, size - 1, size, size + 1, 100, 2**31, 2**62, 2**63 - 1):
            def th(o=o):
                a = good()
                a[1][1] = o
                w = 'raises' if o < 0 or o + 8 > size else fields(a[0], [0, o, 12], ['i4', 'f8', 'S5'])
                return low(w, *a)
            yield 'offset %d' % o, th
        for t in ('i1', 'i2', 'i4', 'u4', 'f8', 'u8', '>i8', 'f4', '?', 'O', 'S3'):
            def th(t=t):
                a = good()
                a[1] = np.array([0, 4, 12]).astype(t)
                try:
                    r = e.pc.recarray_to_colmajor(*a) if e.pc else None
                except Exception:
                    return True
                return all(np.array_equal(x, y) for x, y in zip(a[2], ok)) if e.pc else True
            yield 'offsets of type %s: refused or right' % t, th
        for nm, o in (('step 2', np.array([0, 9, 4, 9, 12, 9])[::2]), ('reversed', np.array([12, 4, 0])[::-1]), ('misaligned', None)):
            def th(o=o):
                a = good()
                if o is None:
                    o = np.zeros(25, 'u1')[1:].view('i8')
                    o[:] = [0, 4, 12]
                a[1] = o
                try:
                    e.pc.recarray_to_colmajor(*a) if e.pc else None
                except Exception:
                    return True
                return all(np.array_equal(x, y) for x, y in zip(a[2], ok)) if e.pc else True
            yield 'offsets %s: refused or right' % nm, th
        for nm, v in (('short', np.zeros(n - 1, 'i4')), ('empty', np.zeros(0, 'i4')), ('list', [0] * n), ('None', None), ('int', 3), ('wide', np.zeros(n, 'S40')), ('2-d', np.zeros((n, 2), 'i4')), ('0-d', np.zeros((), 'i4')),
                      ('readonly', None), ('object', np.empty(n, 'O')), ('scalar', np.int32(4)), ('NULL', 'null')):
            def th(nm=nm, v=v):
                a = good()
                if nm == 'readonly':
                    v = np.zeros(n, 'i4')
                    v.flags.writeable = False
                a[2][0] = v
                if nm == 'NULL':
                    a[2] = np.empty(3, 'O')
                return low('raises', *a)
            yield 'array is %s' % nm, th
        for nm in ('step 2', 'reversed', 'column', 'zero stride'):
            def th(nm=nm):
                a = good()
                v = {'step 2': np.zeros(2 * n, 'i4')[::2], 'reversed': np.zeros(n, 'i4')[::-1], 'column': np.zeros((n, 3), 'i4')[:, 1], 'zero stride': np.broadcast_to(np.zeros(1, 'i4'), (n,))}[nm]
                a[2][0] = v
                try:
                    e.pc.recarray_to_colmajor(*a) if e.pc else None
                except Exception:
                    return True
                return all(np.array_equal(x, y) for x, y in zip(a[2], ok)) if e.pc else True
            yield 'array is %s: refused or right' % nm, th
        for nm in ('step 2', 'reversed', '2-d', '2-d T', '0-d'):
            def th(nm=nm):
                a = good()
                b = fill(np, d, 2 * n)
                a[0] = {'step 2': b[::2], 'reversed': b[:n][::-1], '2-d': b[:n].reshape(2, 3), '2-d T': b[:n].reshape(2, 3).T, '0-d': b[0:1].reshape(())}[nm]
                try:
                    e.pc.recarray_to_colmajor(*a) if e.pc else None
                except Exception:
                    return True
                f = fields(a[0].ravel(), [0, 4, 12], ['i4', 'f8', 'S5'])
                return all(np.array_equal(x[:len(y)], y) for x, y in zip(a[2], f)) if e.pc else True
            yield 'records %s: refused or right' % nm, th


def bad(f):
    try:
        f()
    except Exception:
        return 'raises'
    return 'returns'
