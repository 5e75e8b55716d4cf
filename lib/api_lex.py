"""P22 lexsort: case spaces (see apidiff.py)."""
import itertools
import api_sort

NUM = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'g']
OTHER = ['S3', 'S1', 'S9', 'U2', 'U5', 'e', 'M8[s]', 'm8[ms]', 'F', 'D', 'O']
RULE = {'P22': (
    'pnumpy.lexsort, lexsort32 and lexsort64 against numpy.lexsort. Per element type: single keys from the spaces of P21 (all short sequences, 0-1 merges, displaced elements, '
    'whole-array shapes at lengths up to 131,072 with the worker pool on); all pairs of keys of length up to 4 over 3 symbols and triples of length up to 3 over 2, in mixed types; '
    'every form of passing keys (star, list, tuple, two-dimensional, strided, reversed, byte-swapped, misaligned, read-only, wrong lengths, None, lists, empty, axis); all partitions '
    'of lengths up to 5 given by cutoffs, and every invalid cutoff vector of the same range; every index vector over a key up to length 4, and invalid ones.')}


def groups(tier):
    g = []
    for dt in NUM + OTHER:
        for part in ('small', 'merge', 'displaced', 'shape', 'pairs'):
            g.append(dict(dt=dt, part=part))
    for dt in NUM + OTHER:
        g.append(dict(dt=dt, part='form'))
        if dt in NUM or dt in ('S3', 'U2', 'S1'):
            g.append(dict(dt=dt, part='cut'))
            g.append(dict(dt=dt, part='index'))
            g += [dict(dt=dt, part='large', workers=w) for w in ((0, 1, 3, 6) if tier == 'thorough' else (3,)) if tier == 'thorough' or dt in '?BhiLfd' or dt in ('S3', 'U2')]
    g.append(dict(dt='i', part='triples'))
    return g


def norm(np, r):
    return (type(r).__name__, r.shape, r.astype('i8')) if isinstance(r, np.ndarray) else r


def behaved(a):
    return a.flags.aligned and a.dtype.isnative


def cases(g, e):
    np = e.np
    dt = g['dt']
    part = g['part']
    if e.pc:
        (e.pc.thread_enable if part == 'large' else e.pc.thread_disable)()
        e.pc.thread_setworkers(g.get('workers', 3))
    if e.pn:
        pl = e.pn.lexsort
        l32, l64 = e.pn.lexsort32, e.pn.lexsort64
    else:
        def pl(*keys, **kw):
            if len(keys) == 1 and isinstance(keys[0], (list, tuple)):
                keys = keys[0]
            elif len(keys) == 1 and isinstance(keys[0], np.ndarray) and keys[0].ndim > 1:
                keys = keys[0]
            return np.lexsort(keys, **kw)
        l32 = l64 = None

    direct = np.dtype(dt).char in '?bBhHiIlLqQfdgSU'

    def low(which, *keys, **kw):
        """lexsort32/64 called directly; numpy's answer in the other process"""
        if e.pn:
            r = (l32, l64)[which](*keys, **kw)
            return r.dtype.str, norm(np, r)
        if len(keys) == 1 and isinstance(keys[0], list):
            keys = keys[0]
        return ('<i4', '<i8')[which], norm(np, np.lexsort(keys))

    tier = g.get('tier', 'quick')
    T = api_sort.table(np, dt)
    if part in ('small', 'merge', 'displaced', 'shape', 'large'):
        for label, a in api_sort.inputs(g, e, tier):
            yield 'pn.lexsort([a]) %s %s' % (dt, label), lambda a=a: norm(np, pl([a]))
            if direct:
                if part != 'displaced':
                    yield 'lexsort64(a) %s %s' % (dt, label), lambda a=a: low(1, a)
                if part in ('small', 'shape', 'large'):
                    for kind in ('quicksort', 'heapsort', 'mergesort'):
                        def t(a=a, kind=kind):
                            r = l32(a, kind=kind) if e.pn else np.lexsort([a])
                            return api_sort.equiv(np, a[r], False), api_sort.permutation(np, r, 0)
                        yield 'lexsort32(a, kind=%s) %s %s' % (kind, dt, label), t
            if part in ('large', 'shape') and label.split()[0] in ('mix', 'saw7', 'nanmid', 'down'):
                n = len(a)
                b = T[(np.arange(n) * 31 // 7) % 10]
                c = (np.arange(n) % 3).astype('i4')
                yield 'pn.lexsort([b,a]) %s %s' % (dt, label), lambda a=a, b=b: norm(np, pl([b, a]))
                yield 'pn.lexsort([a,c]) %s %s' % (dt, label), lambda a=a, c=c: norm(np, pl([a, c]))
                yield 'pn.lexsort(c,a,b) %s %s' % (dt, label), lambda a=a, b=b, c=c: norm(np, pl(c, a, b))
            if part == 'large' and direct and label.split()[0] in ('mix', 'saw7', 'down', 'nanfirst'):
                n = len(a)
                for nm, cut in (('4', [n // 4, n // 2, n // 2 + 1, n]), ('1', [n]), ('many', list(range(1000, n, 1000)) + [n]), ('empty', [0, 0, n // 3, n // 3, n])):
                    for w in (0, 1):
                        yield 'lexsort%d(a, cutoffs=%s) %s %s' % (32 + 32 * w, nm, dt, label), lambda a=a, cut=cut, w=w: cutoffs(np, (l32, l64)[w] if e.pn else None, [a], cut)
    elif part == 'pairs':
        other = np.array([5, -7, 100], 'i2')
        for n in range(0, 5):
            for s in itertools.product(range(3), repeat=n):
                a = T[[(0, 5, 9)[x] for x in s]] if n else T[:0]
                for s2 in itertools.product(range(3), repeat=n):
                    b = other[list(s2)] if n else other[:0]
                    yield 'pn.lexsort([a,b]) %s a=%s b=%s' % (dt, s, s2), lambda a=a, b=b: norm(np, pl([a, b]))
                    yield 'pn.lexsort(b,a) %s a=%s b=%s' % (dt, s, s2), lambda a=a, b=b: norm(np, pl(b, a))
    elif part == 'triples':
        for ts in itertools.product(['i', 'd', 'S3', '?', 'U2', 'Q'], repeat=3):
            tab = [api_sort.table(np, x)[[1, 6]] for x in ts]
            for n in (2, 3):
                seq = list(itertools.product(range(2), repeat=n))
                for s in itertools.product(seq, repeat=3):
                    ks = [t[list(x)] for t, x in zip(tab, s)]
                    yield 'pn.lexsort %s %s' % (ts, s), lambda ks=ks: norm(np, pl(ks))
    elif part == 'form':
        for n in (1, 2, 3, 17, 300):
            i = np.arange(3 * n + 3)
            x = T[(i * 7919 + i * i // 3) % 10]
            y = (i * 37 % 5).astype('i4')[:n]
            forms = {'plain': lambda: x[:n].copy(), 'step 2': lambda: x.copy()[:2 * n:2], 'reversed': lambda: x[:n].copy()[::-1],
                     'readonly': lambda: ro(x[:n].copy()),
                     'column': lambda: np.resize(x, (n, 3))[:, 1], 'zero stride': lambda: np.broadcast_to(x[3], (n,)), 'tolist': lambda: x[:n].tolist()}
            if x.dtype.kind != 'O':
                forms['swapped'] = lambda: x[:n].astype(x.dtype.newbyteorder())
                forms['swapped reversed'] = lambda: x[:n].astype(x.dtype.newbyteorder())[::-1]

                def mis():
                    b = np.zeros(n * x.dtype.itemsize + 1, 'u1')
                    v = b[1:].view(x.dtype)
                    v[...] = x[:n]
                    return v
                forms['misaligned'] = mis
            for nm, f in forms.items():
                L = '%s %s n=%d' % (nm, dt, n)
                a = f()
                if nm != 'tolist':
                    yield 'pn.lexsort([a]) ' + L, lambda a=a: norm(np, pl([a]))
                    yield 'pn.lexsort((a,)) ' + L, lambda a=a: norm(np, pl((a,)))
                    yield 'pn.lexsort(a,y) ' + L, lambda a=a, y=y: norm(np, pl(a, y))
                    yield 'pn.lexsort(y,a) ' + L, lambda a=a, y=y: norm(np, pl(y, a))
                    yield 'input unchanged ' + L, lambda a=a: (norm(np, pl([a, a])), a)
                yield 'pn.lexsort([y,a]) ' + L, lambda a=a, y=y: norm(np, pl([y, a]))
                yield 'pn.lexsort((a,y)) ' + L, lambda a=a, y=y: norm(np, pl((a, y)))
                for ax in (0, -1, 1, -2, 5):
                    yield 'pn.lexsort([a,y],axis=%d) ' % ax + L, lambda a=a, y=y, ax=ax: norm(np, pl([a, y], axis=ax))
                    yield 'pn.lexsort((a,y),axis=%d) ' % ax + L, lambda a=a, y=y, ax=ax: norm(np, pl((a, y), axis=ax))
            for k in (1, 2, 3):
                m = np.resize(x, (k, n))
                for nm, q in (('C', m), ('F', np.asfortranarray(m)), ('T', np.ascontiguousarray(m.T).T)):
                    yield 'pn.lexsort(2d %s) %s %d,%d' % (nm, dt, k, n), lambda q=q: norm(np, pl(q))
                    yield 'pn.lexsort(list of 2d %s) %s %d,%d' % (nm, dt, k, n), lambda q=q: norm(np, pl([q, q[::-1]]))
                    for ax in (0, 1, -1):
                        yield 'pn.lexsort(list of 2d %s, axis=%d) %s %d,%d' % (nm, ax, dt, k, n), lambda q=q, ax=ax: norm(np, pl([q, q[::-1]], axis=ax))
            yield 'rows differ %s n=%d' % (dt, n), lambda x=x, n=n: norm(np, pl([x[:n], x[:n + 1]]))
            yield 'rows differ 2 %s n=%d' % (dt, n), lambda x=x, n=n: norm(np, pl([x[:n], x[:n], x[:0]]))
            yield 'rows differ 3 %s n=%d' % (dt, n), lambda x=x, n=n: norm(np, pl(x[:n + 1], x[:n]) if e.pn else np.lexsort((x[:n + 1], x[:n])))
        yield 'no keys', lambda: norm(np, pl([]))
        yield 'no keys ()', lambda: norm(np, pl(()))
        yield '0-d', lambda: norm(np, pl([np.array(T[3])]))
        yield '0-d twice', lambda: norm(np, pl([np.array(T[3]), np.array(T[2])]))
        yield 'lists', lambda: norm(np, pl(([3, 1, 2], [1, 1, 0])))
        yield 'scalars', lambda: norm(np, pl((3, 1, 2)))
        if e.pn:
            def err(f):
                try:
                    r = f()
                except (ValueError, TypeError, MemoryError):
                    return 'refused'
                return repr(r)
        else:
            def err(f):
                return 'refused'
        for nm, a in (('none', ([None],)), ('none2', ([None, None],)), ('array, none', ([T[:3], None],)), ('none, array', ([None, T[:3]],)), ('empty list', ([],)), ('nothing', ()),
                      ('int', (3,)), ('0-d', (np.array(3),)), ('rows', (T[:3], T[:2])), ('list of lists', ([[1, 2]],)), ('2-d', (np.zeros((2, 3)),)), ('string', ('abc',)),
                      ('swapped', (np.arange(3, dtype='>i4'),)), ('swapped 2', (np.arange(3), np.arange(3, dtype='>i8')[::-1])), ('structured', (np.zeros(3, 'i4,f8'),)),
                      ('half', (np.zeros(3, 'e'),)), ('complex', (np.zeros(3, 'F'),)), ('objects', (np.zeros(3, 'O'),)), ('date', (np.zeros(3, 'M8[s]'),))):
            for w in (0, 1):
                yield 'lexsort%d refuses %s' % (32 + 32 * w, nm), lambda a=a, w=w: err(lambda: (l32, l64)[w](*a))
    elif part == 'cut':
        for n in range(1, 6):
            xs = [T[list(s)] for s in itertools.product((2, 6, 9), repeat=n)]
            for k in range(1, 4):
                for cut in itertools.product(range(-1, n + 2), repeat=k):
                    ok = list(cut) == sorted(cut) and cut[0] >= 0 and cut[-1] == n
                    if ok:
                        for a in xs if n < 5 else xs[::7]:
                            for w in (0, 1):
                                yield 'lexsort%d(cutoffs=%s) %s %s' % (32 + 32 * w, cut, dt, a.tolist()), lambda a=a, cut=cut, w=w: cutoffs(np, (l32, l64)[w] if e.pn else None, [a], list(cut))
                    else:
                        yield 'bad cutoffs %s %s' % (cut, dt), lambda cut=cut, a=xs[-2]: refuses(np, e, lambda: l32(a, cutoffs=np.array(cut, 'i8')))
            yield 'two keys cut %s n=%d' % (dt, n), lambda n=n: cutoffs(np, l64, [T[(np.arange(n) * 3) % 10], np.arange(n)[::-1] // 2], [n // 2, n])
        a = T[[5, 3, 6, 1]]
        cut = np.array([2, 4], 'i8')
        for nm, c in (('empty', np.array([], 'i8')), ('i4', cut.astype('i4')), ('float', cut.astype('f8')), ('swapped', cut.astype('>i8')), ('2-d', cut.reshape(1, 2)),
                      ('0-d', np.array(4))):
            yield 'cutoffs given as %s %s' % (nm, dt), lambda c=c: refuses(np, e, lambda: l32(a, cutoffs=c), nm in ('2-d', '0-d', 'swapped'))
        for nm, c in (('step 2', np.array([2, 9, 4, 9], 'i8')[::2]), ('reversed', np.array([4, 2], 'i8')[::-1]), ('misaligned', np.frombuffer(b'\0' + cut.tobytes(), 'u1')[1:].view('i8'))):
            def t(c=c):
                if not e.pn:
                    return True
                try:
                    r = l32(a, cutoffs=c)
                except ValueError:
                    return True
                return bool((r == cutoffs(np, None, [a], [2, 4])[1]).all())
            yield 'cutoffs layout %s %s' % (nm, dt), t
    elif part == 'index':
        for n in range(1, 5):
            a = T[[(6, 2, 9, 4)[i] for i in range(n)]]
            b = T[[(3, 3, 1, 3)[i] for i in range(n)]]
            for k in range(1, n + 1):
                for ix in itertools.product(range(-1, n + 1), repeat=k):
                    bad = min(ix) < 0 or max(ix) >= n
                    for w in (0, 1):
                        def t(ix=ix, w=w, a=a, b=b):
                            v = np.array(ix, ('i4', 'i8')[w])
                            r = []
                            for key in ([a], [b], [a, b]):
                                v = np.array(ix, ('i4', 'i8')[w])
                                if e.pn:
                                    r.append((l32, l64)[w](*key, index=v))
                                else:
                                    for q in key:
                                        v = v[np.lexsort([q[v]])]
                                    r.append(v)
                            return r
                        if bad:
                            yield 'bad index %s %s n=%d' % (ix, dt, n), lambda ix=ix, w=w, a=a: refuses(np, e, lambda: (l32, l64)[w](a, index=np.array(ix, ('i4', 'i8')[w])))
                        else:
                            yield 'lexsort%d(index=%s) %s n=%d' % (32 + 32 * w, ix, dt, n), t
        a = T[[5, 3, 6, 1]]
        for nm, v in (('wrong type', np.arange(4, dtype='i2')), ('long index for lexsort32', np.arange(4, dtype='i8')), ('too long', np.arange(5, dtype='i4') % 4),
                      ('float', np.arange(4.)), ('read-only', ro(np.arange(4, dtype='i4'))), ('list', [0, 1, 2, 3])):
            yield 'index given as %s %s' % (nm, dt), lambda v=v, nm=nm: refuses(np, e, lambda: l32(a, index=v), nm == 'list')
        for nm, mk in (('step 2', lambda: np.array([3, 9, 1, 9, 2, 9], 'i4')[::2]), ('reversed', lambda: np.array([2, 1, 3], 'i4')[::-1]), ('swapped', lambda: np.array([3, 1, 2], '>i4')),
                       ('empty', lambda: np.array([], 'i4')), ('2-d', lambda: np.array([[3, 1, 2]], 'i4')),
                       ('misaligned', lambda: np.frombuffer(b'\0' + np.array([3, 1, 2], 'i4').tobytes(), 'u1').copy()[1:].view('i4'))):
            def t(mk=mk):
                if not e.pn:
                    return True
                v = mk()
                want = v.ravel()[np.lexsort([a[v.ravel()]])].astype('i4')
                try:
                    r = l32(a, index=v)
                except ValueError:
                    return True
                return bool((r.ravel() == want).all())
            yield 'index layout %s %s' % (nm, dt), t


def ro(a):
    a.flags.writeable = False
    return a


def refuses(np, e, f, either=False):
    """an invalid argument is refused; where 'either', anything but a crash"""
    if not e.pn:
        return True
    try:
        r = f()
    except (ValueError, TypeError):
        return True
    return either or repr(r)


def cutoffs(np, f, keys, cut):
    if f:
        r = f(*keys, cutoffs=np.array(cut, 'i8'))
        return r.dtype.kind, r.astype('i8')
    out, p = [], 0
    for c in cut:
        out.append(np.lexsort([k[p:c] for k in keys]).astype('i8'))
        p = c
    return 'i', np.concatenate(out)
