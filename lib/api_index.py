"""P24 boolean masks, P25 integer index vectors: case spaces (see apidiff.py)."""
import itertools, sys
import api_sort

RULE = {}
RULE['P24'] = (
    'pnumpy.getitem(a, mask) and a[mask] with the __getitem__ hook on. Per element type (all numeric, dates, strings, raw and structured items of 1 to 24 bytes, objects): every mask '
    'of up to 9 elements in contiguous, strided and reversed values and masks; every single true or false position up to length 70; 8 mask patterns at lengths around the vector (32, 8160), '
    'chunk (16,384) and threading (65,536) limits with the pool on and off; one to three dimensional arrays in C, Fortran and strided layouts with equal and unequal mask shapes; '
    'byte-swapped, misaligned, read-only arrays, derived classes, also created while the hook is on and used after it is removed; other kinds of index; reference counts of objects.')
RULE['P25'] = (
    'pnumpy.getitem(a, index[, default]). Per element type and each of the 8 index types: every index vector of up to 3 elements within one of the valid range, the extreme values of '
    'the index type, default values of every kind; contiguous, strided, reversed, byte-swapped, misaligned and multi-dimensional values and indexes; lengths around the threading limit '
    'with the pool on and off; reference counts of objects; invalid index types and defaults.')

STRUCT = [('a', 'i1'), ('b', 'f8'), ('c', 'S3')]
TYPES = ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'e', 'f', 'd', 'g', 'F', 'D', 'G', 'M8[s]', 'm8[D]', 'S1', 'S3', 'S7', 'S8', 'S9', 'S16', 'S17', 'S24', 'U1', 'U2', 'U4', 'U5',
         'V3', 'V12', 'V16', 'struct', 'O', 'ostruct']
IDX = ['b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q']


def values(np, dt, n):
    """n distinguishable items where the type has as many"""
    i = np.arange(n)
    if dt == 'struct':
        a = np.zeros(n, STRUCT)
        a['a'], a['b'], a['c'] = i % 100, i * 1.5, (i % 1000).astype('S3')
        return a
    if dt == 'ostruct':
        a = np.zeros(n, [('k', 'i4'), ('o', 'O')])
        a['k'] = i
        for j in range(n):
            a['o'][j] = 'x%d' % j
        return a
    d = np.dtype(dt)
    if d.kind == 'O':
        a = np.empty(n, 'O')
        for j in range(n):
            a[j] = ('o', j)
        return a
    if d.kind == 'V':
        return ((i[:, None] * 7 + np.arange(d.itemsize) * 13 + i[:, None] // 256) % 256).astype('u1').view(d).ravel()
    if d.kind == 'b':
        return (i * 7 // 3) % 2 == 0
    if d.kind in 'SU':
        return np.array([('%d' % (x * 7919 % 1000003))[:max(1, d.itemsize // (4 if d.kind == 'U' else 1))].ljust(d.itemsize // (4 if d.kind == 'U' else 1), 'x') for x in range(n)] or [], dtype=d)
    if d.kind in 'Mm':
        return (i * 1000003 + 5).astype('i8').view(d)
    with np.errstate(all='ignore'):
        a = (i + 1).astype(d) if d.kind != 'c' else (i + 1 + 2j * i).astype(d)
    return a


def groups(tier):
    th = tier == 'thorough'
    g = []
    for dt in TYPES:
        for part in ('masks', 'single', 'forms'):
            g.append(dict(dt=dt, part=part))
        g.append(dict(dt=dt, part='lengths', workers=0))
        g.append(dict(dt=dt, part='lengths', workers=3))
        if th:
            g += [dict(dt=dt, part='lengths', workers=w) for w in (1, 6)]
    g.append(dict(dt='i', part='hook'))
    return g


def groups25(tier):
    th = tier == 'thorough'
    g = []
    for dt in TYPES:
        for part in ('vectors', 'extremes', 'forms25', 'default'):
            g.append(dict(dt=dt, part=part))
        for w in (0, 3) if not th else (0, 1, 3, 6):
            g.append(dict(dt=dt, part='large', workers=w))
    return g


def layouts(np, a):
    """the same items in several layouts"""
    n = len(a)
    yield 'C', a
    b = np.empty(2 * n + 1, a.dtype)
    b[:] = a[:1] if n else b
    v = b[1::2][:n]
    v[...] = a
    yield 'step2', v
    b = a[::-1].copy()
    yield 'reversed', b[::-1]
    b = np.empty(3 * n + 3, a.dtype)
    b[:] = a[-1:] if n else b
    v = b[::-3][:n]
    v[...] = a
    yield 'step-3', v


def mis(np, a):
    if a.dtype.hasobject:
        return a
    b = np.zeros(a.nbytes + 1, 'u1')
    v = b[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a
    v[...] = a
    return v


def setpool(e, g):
    if e.pc:
        w = g.get('workers', 3)
        (e.pc.thread_enable if w else e.pc.thread_disable)()
        e.pc.thread_setworkers(w or 3)


def mask_cases(np, e, a, m, label, refusable=False):
    if e.pn:
        def t1():
            try:
                return e.pn.getitem(a, m)
            except ValueError:
                if refusable:
                    return a[m]
                raise

        def t2():
            e.pc.hook_enable()
            try:
                return a[m]
            finally:
                e.pc.hook_disable()
    else:
        t1 = t2 = lambda: a[m]
    yield 'getitem ' + label, t1
    yield 'hook ' + label, t2


def patterns(np, n):
    i = np.arange(n)
    yield 'all', np.ones(n, '?')
    yield 'none', np.zeros(n, '?')
    yield 'alternate', i % 2 == 0
    yield 'mix', (i * 7919 + i // 7) % 5 < 2
    yield 'last', i == n - 1
    yield 'first', i == 0
    yield 'blocks', (i // 37) % 3 == 1
    yield 'bytes', ((i * 31 // 3) % 4 * 85).astype('u1').view('?')


def cases(g, e):
    if g.get('what') == 'fancy':
        yield from cases25(g, e)
        return
    np = e.np
    dt, part = g['dt'], g['part']
    setpool(e, g)
    if part == 'masks':
        for n in range(0, 10):
            a = values(np, dt, n)
            for m in itertools.product((False, True), repeat=n):
                m = np.array(m, '?')
                yield from mask_cases(np, e, a, m, '%s %s' % (dt, m.astype(int).tolist()))
                if n < 6 or n == 9 and m.sum() in (1, 2, 8):
                    for (ln, la) in list(layouts(np, a))[1:]:
                        for (mn, lm) in layouts(np, m):
                            yield from mask_cases(np, e, la, lm, '%s %s %s %s' % (dt, ln, mn, m.astype(int).tolist()))
    elif part == 'single':
        for n in list(range(10, 71)):
            a = values(np, dt, n)
            for base in (False, True):
                for p in range(n):
                    m = np.full(n, base)
                    m[p] = not base
                    yield from mask_cases(np, e, a, m, '%s n=%d [%d]=%s' % (dt, n, p, not base))
    elif part == 'lengths':
        big = [65535, 65536, 65537, 81919, 81921, 131072 + 16384, 150001]
        for n in ([127, 1000, 8159, 8160, 8161, 8192, 16383, 16384, 16385, 32769] if not g['workers'] or g.get('tier') == 'thorough' else []) + (
                big if dt in ('?', 'h', 'i', 'd', 'D', 'S3', 'O', 'S17', 'V12') or g.get('tier') == 'thorough' else [65536, 81921]):
            a = values(np, dt, n)
            for pn_, m in patterns(np, n):
                yield from mask_cases(np, e, a, m, '%s n=%d %s' % (dt, n, pn_))
            for ln, la in layouts(np, a):
                for mn, lm in layouts(np, m):
                    if ln != 'C' or mn != 'C':
                        yield from mask_cases(np, e, la, lm, '%s n=%d %s %s' % (dt, n, ln, mn))
    elif part == 'forms':
        for sh in ((2, 3), (3, 4, 5), (1, 7), (7, 1), (1, 1), (), (0, 3), (3, 0), (20, 33), (5, 1, 4), (300, 256)):
            n = int(np.prod(sh))
            if dt in ('O', 'ostruct') and n > 10000:
                continue
            a = values(np, dt, n).reshape(sh)
            for mi in range(3):
                m = [(np.arange(n) * 7919 // 3) % 3 == 0, np.ones(n, '?'), np.arange(n) % 2 == 1][mi].reshape(sh)
                for ln, la in (('C', a), ('F', np.asfortranarray(a)), ('T', np.ascontiguousarray(a.T).T), ('swapped axes', np.repeat(a[..., None], 2, -1)[..., 1]), ('reversed', a[::-1] if a.ndim else a)):
                    for mn, lm in (('C', m), ('F', np.asfortranarray(m)), ('strided', np.repeat(m[..., None], 2, -1)[..., 1]), ('reversed', m[::-1].copy()[::-1] if m.ndim else m)):
                        yield from mask_cases(np, e, la, lm, '%s %r %s %s' % (dt, sh, ln, mn), True)
                # other mask shapes
                for msh in ((n,), sh[::-1], sh[:1], sh + (1,), (1,) + sh, (n + 1,), (1,), (), (n // 2, 2)):
                    k = int(np.prod(msh))
                    mm = (np.arange(k) * 7919 // 3 % 3 == 0).reshape(msh)
                    yield from mask_cases(np, e, a, mm, '%s %r mask %r' % (dt, sh, msh), True)
        n = 41
        a = values(np, dt, n)
        m = (np.arange(n) * 7919 // 3) % 3 == 0
        if a.dtype.kind not in 'VO':
            yield from mask_cases(np, e, a.astype(a.dtype.newbyteorder()), m, dt + ' swapped')
        if dt == 'struct':
            yield from mask_cases(np, e, a.astype(a.dtype.newbyteorder()), m, dt + ' swapped')
            yield from mask_cases(np, e, a[['a', 'c']], m, dt + ' fields')
            yield from mask_cases(np, e, a['c'], m, dt + ' field')
            yield from mask_cases(np, e, a['b'], m, dt + ' field misaligned')
        yield from mask_cases(np, e, mis(np, a), m, dt + ' misaligned')
        r = a.copy()
        r.flags.writeable = False
        yield from mask_cases(np, e, r, m, dt + ' read-only')
        yield from mask_cases(np, e, np.broadcast_to(a[3:4], (n,)), m, dt + ' broadcast')
        yield from mask_cases(np, e, a, np.broadcast_to(m[:1], (n,)), dt + ' mask broadcast')
        yield from mask_cases(np, e, a.copy(), m, dt + ' unchanged input')

        def own(a=a, m=m):
            """the result is independent of the input"""
            b = a.copy()
            r = e.pn.getitem(b, m) if e.pn else b[m]
            r[:] = a[0]
            return b, r, r.flags.owndata, r.flags.writeable
        yield 'independent result ' + dt, own
        if a.dtype.hasobject:
            for lay in range(4):
                yield 'reference counts %s %d' % (dt, lay), lambda lay=lay: refs(np, e, dt, lay, lambda a: [e.pn.getitem(a, np.arange(len(a)) % 3 == 0) if e.pn else a[np.arange(len(a)) % 3 == 0] for _ in range(3)])
    elif part == 'hook':
        yield from hook_cases(np, e)


def refs(np, e, dt, lay, f):
    a = values(np, dt, 20)
    a = list(layouts(np, a))[lay][1]
    objs = [x for x in (a.tolist() if dt == 'O' else [t[1] for t in a.tolist()])]
    c0 = [sys.getrefcount(o) for o in objs]
    r = f(a)
    c1 = [sys.getrefcount(o) for o in objs]
    s = [x.tolist() for x in r]
    del s
    del r
    c2 = [sys.getrefcount(o) for o in objs]
    return [x - y for x, y in zip(c1, c0)], [x - y for x, y in zip(c2, c0)]


def hook_cases(np, e):
    def hooked(f):
        def t():
            if not e.pn:
                return f()
            e.pc.hook_enable()
            try:
                return f()
            finally:
                e.pc.hook_disable()
        return t

    class Sub(np.ndarray):
        pass

    class Sub2(np.ndarray):
        def __array_finalize__(self, obj):
            self.tag = getattr(obj, 'tag', 'new')

        def __getitem__(self, k):
            r = super().__getitem__(k)
            return r
    arrays = {'1d': np.arange(10) * 3, '2d': np.arange(12.).reshape(3, 4), '0d': np.array(5), 'empty': np.zeros(0), '3d': np.arange(24).reshape(2, 3, 4), 'matrix': np.matrix(np.arange(12).reshape(3, 4)),
              'recarray': np.rec.array([(1, 2.), (3, 4.), (5, 6.)]), 'masked': np.ma.array(np.arange(10), mask=np.arange(10) % 3 == 0), 'sub': np.arange(10).view(Sub), 'sub2': np.arange(10).view(Sub2),
              'chararray': np.char.array(['a', 'bb', 'c']), 'object': np.array([1, 'a', None, (2,)], dtype='O')}
    for nm, a in arrays.items():
        n = a.shape[0] if a.ndim else 1
        ix = {'int': 0, 'neg': -1, 'out': 100, 'slice': slice(1, None, 2), 'rev': slice(None, None, -1), 'none': None, 'ellipsis': Ellipsis, 'tuple': (0,), 'empty tuple': (), 'tuple2': (slice(None), None),
              'list': [0, 0], 'list bool': [True] * n, 'np.int64': np.int64(0), 'true': True, 'false': False, 'np.true': np.True_, 'float': 1.0, 'str': 'a', 'big': 2**70,
              'mask': np.arange(n) % 2 == 0, 'mask short': np.ones(max(n - 1, 0), '?'), 'mask long': np.ones(n + 1, '?'), 'mask shape': (np.arange(a.size) % 2 == 0).reshape(a.shape),
              'mask flat': np.arange(a.size) % 2 == 0, 'mask 0d': np.array(True), 'mask 0d false': np.array(False), 'mask list of lists': [[True]],
              'mask sub': (np.arange(n) % 2 == 0).view(Sub), 'mask masked': np.ma.array(np.arange(n) % 2 == 0, mask=np.zeros(n, '?')), 'mask object': (np.arange(n) % 2 == 0).astype('O'),
              'float array': np.zeros(2), 'str array': np.array(['a']), 'empty list': [], 'empty float': np.array([]), 'empty int': np.array([], 'i8'),
              'out array': np.array([0, n]), 'out neg': np.array([-n - 1]), 'tuple of arrays': (np.array([0]),), 'two masks': (np.ones(n, '?'), slice(None)), 'mask and int': (np.ones(n, '?'), 0)}
        for d in IDX:
            ix['idx ' + d] = np.array([0, n - 1, 0], d)
            ix['idx 2d ' + d] = np.array([[0, n - 1], [0, 0]], d)
        ix['idx >i4'] = np.array([0, n - 1], '>i4')
        for k, i in ix.items():
            yield 'hook: %s[%s]' % (nm, k), hooked(lambda a=a, i=i: a[i])
            yield 'after the hook: %s[%s]' % (nm, k), lambda a=a, i=i: a[i]

    # derived classes made while the hook is on
    def late(f):
        def t():
            if e.pn:
                e.pc.hook_enable()
            try:
                class Late(np.ndarray):
                    pass

                class Later(Late):
                    def __getitem__(self, k):
                        return super().__getitem__(k)
            finally:
                if e.pn:
                    e.pc.hook_disable()
            return [f(np.arange(10).view(Late)), f(np.arange(10).view(Later))]
        return t
    for k, i in (('int', 3), ('slice', slice(2, 8, 2)), ('mask', np.arange(10) % 2 == 0), ('idx', np.array([1, 2])), ('none', None)):
        yield 'class made while hooked: [%s]' % k, late(lambda a, i=i: a[i])
        yield 'class made while hooked, hooked: [%s]' % k, late(lambda a, i=i: hooked(lambda: a[i])())
    # histories of enabling and disabling
    a = np.arange(6)
    m = a % 2 == 0
    for k in range(1, 6):
        for ops in itertools.product('ed', repeat=k):
            def t(ops=ops):
                r, on = [], False
                for o in ops:
                    if e.pn:
                        r.append((e.pc.hook_enable if o == 'e' else e.pc.hook_disable)())
                    else:
                        r.append(on == (o == 'd'))
                        on = o == 'e'
                    r += [a[m], a[2], a[1:3], a[np.array([0, -1])]]
                if e.pn:
                    e.pc.hook_disable()
                return r
            yield 'history ' + ''.join(ops), t


# ----------------------------------------------------------------------------- P25
def invalid(np, d):
    """the value for indexes out of range when no default is given, None if the type has none"""
    if d.kind == 'b':
        return False
    if d.kind == 'i':
        return np.iinfo(d).min
    if d.kind == 'u':
        return np.iinfo(d).max
    if d.char in 'fd':
        return np.nan
    if d.kind in 'SU':
        return ''
    return None


def fancy(np, e, a, ix, default=None, given=False, cmp=None):
    """getitem, with the elements that have no specified value removed"""
    n = len(a)
    ok = np.array([-n <= int(x) < n for x in ix.ravel()], '?') if ix.size < 200 else ((ix >= -n) & (ix < n) if ix.dtype.kind == 'i' else ix < n).ravel()
    inv = invalid(np, a.dtype)
    known = given or inv is not None
    if e.pn:
        r = e.pn.getitem(a, ix, *([default] if given else []))
    else:
        r = np.empty(ix.size, a.dtype)
        sel = ix[ok].astype('i8')
        if known and not ok.all():
            one = np.zeros(1, a.dtype)
            one[0] = default if given else inv
            r[~ok] = one
        r[ok] = a[sel]
    return r if known else (r.dtype, r.shape, r[ok])


def cases25(g, e):
    np = e.np
    dt, part = g['dt'], g['part']
    setpool(e, g)
    if part == 'vectors':
        for n in (0, 1, 2, 3):
            a = values(np, dt, n)
            for ixt in IDX:
                lo = -n - 1 if ixt.islower() else 0
                for k in range(0, 4):
                    for ix in itertools.product(range(lo, n + 2), repeat=k):
                        if k == 3 and ixt not in 'bBlQ':
                            continue
                        x = np.array(ix, ixt)
                        yield 'getitem(%s[%d], %s %s)' % (dt, n, ixt, ix), lambda a=a, x=x: fancy(np, e, a, x)
    elif part == 'extremes':
        for n in (1, 2, 5, 127, 128, 129, 255, 256, 257) + ((300, 32768, 32769, 65536, 70000) if dt in ('i', 'd', 'S3', 'D', 'S17') else ()):
            a = values(np, dt, n)
            for ixt in IDX:
                d = np.dtype(ixt)
                ii = np.iinfo(d)
                v = sorted({x for x in (ii.min, ii.min + 1, ii.max, ii.max - 1, ii.max // 2, ii.max // 2 + 1, 0, 1, -1, n - 1, n, n + 1, -n, -n - 1, -n + 1, 127, 128, -128, 255, 256, 32767, 32768, -32768,
                                        2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, -2**31, -2**32, 2**63) if ii.min <= x <= ii.max})
                x = np.array(v, d)
                yield 'getitem(%s[%d], %s extremes)' % (dt, n, ixt), lambda a=a, x=x: fancy(np, e, a, x)
                for j in range(len(v)):
                    yield 'getitem(%s[%d], %s [%d])' % (dt, n, ixt, v[j]), lambda a=a, x=x[j:j + 1]: fancy(np, e, a, x)
    elif part == 'forms25':
        for n, k in ((1, 1), (5, 7), (40, 33)):
            a = values(np, dt, n)
            for ixt in IDX:
                lo = -n if ixt.islower() else 0
                x = np.array([lo + (i * 7919 % (n + 1 - lo)) for i in range(k)], ixt)
                for ln, la in list(layouts(np, a)) + [('misaligned', mis(np, a)), ('broadcast', np.broadcast_to(a[:1], (n,)))]:
                    for xn, lx in list(layouts(np, x)) + [('misaligned', mis(np, x)), ('broadcast', np.broadcast_to(x[:1], (k,)))]:
                        yield 'getitem(%s[%d] %s, %s[%d] %s)' % (dt, n, ln, ixt, k, xn), lambda la=la, lx=lx: fancy(np, e, la, lx)

                def sw(a=a, x=x):
                    try:
                        return fancy(np, e, a, x.astype(x.dtype.newbyteorder()))
                    except ValueError:
                        return fancy(np, e, a, x)
                yield 'getitem(%s[%d], swapped %s)' % (dt, n, ixt), sw
                if a.dtype.kind not in 'VO':
                    yield 'getitem(swapped %s[%d], %s)' % (dt, n, ixt), lambda a=a, x=x: fancy(np, e, a.astype(a.dtype.newbyteorder()), x)
            # several dimensions: refused, or flat
            x = np.arange(-n, n, dtype='i4')
            for sh in ((n, 1), (1, n), (1, 1, n), ()):
                def t(a=a, sh=sh):
                    if e.pn:
                        try:
                            r = e.pn.getitem(a.reshape(sh) if sh else a[:1].reshape(()), x)
                        except ValueError:
                            pass
                    return True
                yield 'getitem(%s %r, i)' % (dt, sh), t
            w = np.lib.stride_tricks.as_strided(values(np, dt, n), (max(1, n // 2), n - n // 2 + 0), (a.itemsize, a.itemsize))
            for nm, q in (('window', w), ('F', np.asfortranarray(np.resize(a, (3, n)))), ('cut', np.resize(a, (3, n))[:, :max(1, n - 1)]), ('step', np.resize(a, (4, n))[::2])):
                for ixt in ('i4', 'u1', 'i8'):
                    def t(q=q, ixt=ixt):
                        if e.pn:
                            for x in (np.arange(q.size).astype(ixt), np.arange(q.size).astype(ixt).reshape(q.shape)):
                                try:
                                    e.pn.getitem(q, x)
                                except ValueError:
                                    pass
                            try:
                                e.pn.getitem(q, np.zeros(q.size, '?'))
                            except ValueError:
                                pass
                        return True
                    yield 'getitem(%s %s, %s)' % (dt, nm, ixt), t
                w2 = np.lib.stride_tricks.as_strided(np.zeros(n, 'i4'), (max(1, n // 2), n - n // 2), (4, 4))

                def t(q=q, w2=w2, a=a):
                    if e.pn:
                        for x in (w2, np.asfortranarray(np.zeros((3, n), 'i4')), np.zeros((4, n), 'i4')[::2], np.zeros((3, n), 'i4')[:, ::2]):
                            try:
                                e.pn.getitem(a, x)
                            except ValueError:
                                pass
                    return True
                yield 'getitem(%s, index %s)' % (dt, nm), t
        if values(np, dt, 1).dtype.hasobject:
            for lay in range(4):
                for ixt in ('i4', 'u8'):
                    yield 'reference counts %s %d %s' % (dt, lay, ixt), lambda lay=lay, ixt=ixt: refs(np, e, dt, lay, lambda a: [e.pn.getitem(a, np.arange(0, 15).astype(ixt)) if e.pn else a[np.arange(15)] for _ in range(3)])
        a = values(np, dt, 5)
        for nm, x in (('float', np.zeros(2)), ('half', np.zeros(2, 'e')), ('str', np.array(['a'])), ('object', np.array([0], 'O')), ('date', np.zeros(2, 'M8[s]')), ('complex', np.zeros(2, 'F')),
                      ('list', [0, 1]), ('int', 0), ('None', None), ('struct', np.zeros(2, 'i4,i4'))):
            def t(a=a, x=x):
                if e.pn:
                    try:
                        return repr(e.pn.getitem(a, x))
                    except (ValueError, TypeError):
                        pass
                return 'refused'
            yield 'getitem(%s, %s)' % (dt, nm), t
        for nm, args in (('no arguments', ()), ('one', (a,)), ('four', (a, a, a, a)), ('values list', ([1], np.array([0]))), ('values None', (None, np.array([0])))):
            def t(args=args):
                if e.pn:
                    try:
                        return repr(e.pn.getitem(*args))
                    except (ValueError, TypeError):
                        pass
                return 'refused'
            yield 'getitem: ' + nm, t
    elif part == 'default':
        a = values(np, dt, 4)
        d = a.dtype
        k = d.kind
        good = {'b': [True, False, np.True_], 'i': [0, -1, 100, True, np.int8(5), np.int64(7), np.array(3), -128], 'u': [0, 1, 100, True, np.uint8(200), np.int64(7), 255],
                'f': [0, -1.5, 1, True, np.float32(0.5), np.float64(2.25), np.nan, float('inf'), np.int32(3)], 'c': [0, 1.5, 2 + 3j, True, np.complex64(1 - 1j)],
                'S': [b'', b'a', b'abc', 'a', np.bytes_(b'z'), b'abcdefghijklmnopqrstuvwxyz'], 'U': ['', 'a', '\u20ac', np.str_('zz'), 'abcdefghijklmnop'],
                'M': [np.datetime64('NaT'), np.datetime64('2020-01-01')], 'm': [np.timedelta64('NaT'), np.timedelta64(5, 'D')], 'O': [1, 'text', [1, 2], (3,)],
                'V': []}[k] if d.names is None else [(1, 2.5, b'ab') if dt == 'struct' else (3, 'obj')]
        for n in (4, 0):
            for dv in good:
                for ixt in IDX:
                    x = np.array([0, 3, 4, 100, 127] + ([-1, -4, -5, -100] if ixt.islower() else [200 if ixt != 'b' else 9]), ixt)
                    yield 'getitem(%s[%d], %s, %r)' % (dt, n, ixt, dv), lambda x=x, dv=dv, n=n: fancy(np, e, a[:n], x, dv, True)
                    yield 'getitem(%s[%d] strided, %s strided, %r)' % (dt, n, ixt, dv), lambda x=x, dv=dv, n=n: fancy(np, e, np.repeat(a, 3)[1::3][:n], np.repeat(x, 2)[::2], dv, True)
        x = np.array([0, 9, 1], 'i4')
        bad = {'b': [], 'i': ['abc', b'x', [1, 2], {}, 1j], 'u': ['abc', [1, 2], {}], 'f': ['abc', [1, 2], {}], 'c': ['abc', {}], 'S': [], 'U': [], 'M': ['garbage', {}], 'm': ['garbage', {}], 'O': [], 'V': []}[k]
        for dv in bad if d.names is None else []:
            def t(dv=dv):
                if e.pn:
                    try:
                        return repr(e.pn.getitem(a, x, dv))
                    except (ValueError, TypeError, OverflowError):
                        pass
                return 'refused'
            yield 'getitem(%s, default %r)' % (dt, dv), t
        if k == 'O':
            class Thing:
                pass

            def t():
                th = Thing()
                c0 = sys.getrefcount(th)
                if e.pn:
                    r = e.pn.getitem(a, x, th)
                else:
                    r = a[[0, 0, 1]]
                    r[1] = th
                c1 = sys.getrefcount(th)
                del r
                return c1 - c0, sys.getrefcount(th) - c0
            yield 'references to the default', t
    elif part == 'large':
        for n in (7, 300, 70000):
            a = values(np, dt, n)
            for k in ((65535, 65536, 65537, 100003) if dt in ('?', 'h', 'i', 'd', 'D', 'S3', 'S17') else (65537,)):
                i = np.arange(k)
                for ixt in IDX:
                    if dt not in ('i', 'd', 'S3', 'D') and ixt not in 'iLb':
                        continue
                    d = np.dtype(ixt)
                    ii = np.iinfo(d)
                    if ixt.islower():
                        x = (i * 7919 + i // 11) % (2 * n + 2) - n - 1
                    else:
                        x = (i * 7919 + i // 11) % (n + 1)
                    x = np.clip(x, max(ii.min, -2**62), min(ii.max, 2**62)).astype(d)
                    for ln, la in layouts(np, a):
                        for xn, lx in layouts(np, x):
                            if ln == 'C' or xn in ('C', 'step2'):
                                yield 'getitem(%s[%d] %s, %s[%d] %s)' % (dt, n, ln, ixt, k, xn), lambda la=la, lx=lx: fancy(np, e, la, lx)
