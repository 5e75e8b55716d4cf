"""Operations of the schedule scenarios that are not ufunc inner loops (entry points: /verif/mc/scen_*.cpp)."""
ATOP = dict(bool=0, i1=1, u1=2, i2=3, u2=4, i4=5, u4=6, i8=7, u8=8, f4=12, f8=13)


def values(np, n, dt, shape):
    """cheap to sort, but every part of the array contributes to every merge"""
    i = np.arange(n, dtype=np.int64)
    if shape == 'interleaved':        # eight ascending runs, interleaved by the merges
        k = (n + 7) // 8
        v = (i % k) * 8 + i // k
    elif shape == 'descending':
        v = n - i
    elif shape == 'ties':
        v = (i * 7) % 13
    else:
        v = i
    return v.astype(dt)


def available(so, o):
    return hasattr(so, 'mcs_' + o['op'])


def build(o, c, so, np, fixed, mutable, blank, pattern, inits):
    import ctypes
    op = o['op']
    c.kind = 1
    c.fn = ctypes.cast(getattr(so, 'mcs_' + op), ctypes.c_void_p).value
    n = o.get('n', 65536)

    def args(*a):
        for i, x in enumerate(a):
            c.args[i] = int(x)

    def result(out, exp):
        c.out, c.expect, c.outlen = out, fixed(exp), exp.nbytes

    if op == 'setting':
        args(o['what'], o['value'])
        c.outlen = 0
        return
    if op in ('count', 'chunk'):
        out = blank(n, 0)
        exp = np.zeros(n, 'u1')
        exp[::64 if op == 'chunk' else 1] = 1
        args(n, out, o.get('wake', 0))
        result(out, exp)
        return
    if op == 'nested':
        m = o['m']
        out = blank(n * m, 0)
        args(n, m, out)
        result(out, np.ones(n * m, 'u1'))
        return
    if op == 'rec':
        rec = np.zeros(n, [('a', '<i4'), ('b', '<i8')])
        rec['a'] = np.arange(n)
        rec['b'] = np.arange(n) * 3 + 1
        out = blank(n * 12)
        args(fixed(rec.view('u1').reshape(-1)), n, out, out + n * 4)
        result(out, np.concatenate([rec['a'].copy().view('u1'), rec['b'].copy().view('u1')]))
        return
    dt = np.dtype(o['dt'])
    if op == 'arange':
        # as numpy calls it: the first two values are in place
        start = np.full(n * dt.itemsize, 0x5C, 'u1').view(dt)
        start[:2] = 5, 8
        out = mutable(start)
        args(ATOP[o['dt']], out, out, out + dt.itemsize, n, o.get('wake', 0))
        result(out, (5 + 3 * np.arange(n, dtype='f8')).astype(dt))
        return
    v = values(np, n, dt, o.get('shape'))
    if op == 'issorted':
        for k in o.get('dips', []):
            v[k] = 0 if k else 1
        a = fixed(v)
        args(a, n, ATOP[o['dt']], dt.itemsize)
        c.steps[0], c.steps[1] = 1, int(bool((v[1:] >= v[:-1]).all()))
        c.outlen = 0
        return
    if op == 'sort':
        a = mutable(v)
        out = a if o.get('inplace') else blank(v.nbytes)
        args(o['mode'], ATOP[o['dt']], a, n, dt.itemsize, out)
        c.steps[0], c.steps[1] = 2, 0
        result(out, np.sort(v))
        return
    if op in ('index32', 'index64'):
        it = 'i4' if op == 'index32' else 'i8'
        out = mutable(np.arange(n, dtype=it)) if o.get('mode') != 2 or True else 0
        args(o['mode'], ATOP[o['dt']], fixed(v), n, 0, out)
        c.steps[0], c.steps[1] = 2, 0
        result(out, np.argsort(v, kind='stable').astype(it))
        return
    if op == 'indexcut64':
        cut = np.array(o['cut'], 'i8')
        exp, p = [], 0
        for q in o['cut']:
            exp.append(np.argsort(v[p:q], kind='stable'))
            p = q
        out = mutable(np.concatenate([np.arange(q - p) for p, q in zip([0] + o['cut'][:-1], o['cut'])]).astype('i8'))
        args(o['mode'], ATOP[o['dt']], fixed(v), n, 0, out, fixed(cut), len(cut))
        c.steps[0], c.steps[1] = 2, 0
        result(out, np.concatenate(exp).astype('i8'))
        return
    raise ValueError(op)
