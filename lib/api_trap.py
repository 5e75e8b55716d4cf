"""P33 other threads act while an operation is stopped at a page of its operands (see apidiff.py, nd.c: trap_*)."""
import os, queue, threading
import api_settings as S

RULE = {
    'P33': ('Every operation of a list (element-wise, compare, unary, reduce, accumulate, in place, sort, argsort, arange) is stopped when it first touches a chosen page of one of its operands (every page of short operands, '
            'selected ones of long operands), in whichever thread; another Python thread then executes one of the settings commands, a complete operation, or a fork whose child computes, and the operation goes on. From 8 '
            'settings states (threads, ledger, zig-zag). Results of both, return values and the settings afterwards are compared with the settings model and numpy alone.')}
CMDS = ['none', 'atop_enable', 'atop_disable', 'thread_enable', 'thread_disable', 'ledger_enable', 'ledger_disable', 'recycler_enable', 'hook_enable', 'hook_disable', 'zigzag', 'enable', 'disable', 'init', 'workers 1',
        'workers 3', 'workers 1000', 'setw', 'info', 'op add', 'op big add', 'op big sort', 'op big sum', 'op arange', 'op mask', 'op argsort', 'op big argsort', 'op same', 'fork']
N = 66000


def groups(tier):
    ops = ['add', 'add scalar', 'compare', 'sqrt', 'isnan', 'sin', 'sum', 'max', 'cumsum', 'inplace', 'sort', 'sort heap', 'argsort', 'argsort f', 'sort f', 'strided', 'convert', 'and', 'arange', 'argmax', 'sort str']
    g = []
    for t in (0, 1):
        for l in (0, 1):
            for z in (0, 1):
                if z and not t:
                    continue
                g += [dict(op=o, threads=t, ledger=l, zigzag=z, all=int(tier == 'thorough')) for o in ops]
    return g


def setup(e):
    S.setup(e)
    np = e.np
    e.q, e.r = queue.Queue(), queue.Queue()

    def helper():
        while True:
            f = e.q.get()
            try:
                e.r.put(f())
            except BaseException as ex:
                e.r.put(ex)
    e.buf = [(e.nd.pages(N * 8 + 4096) if e.pn else np.zeros(N * 8 + 4096, 'u1')) for _ in range(3)]
    e.helper = threading.Thread(target=helper, daemon=True)
    e.helper.start()
    i = np.arange(N)
    e.ia = (i * 7919 % 1001 - 500).astype('i4')
    e.ib = (i * 31 % 97 + 1).astype('i4')
    e.fa = (e.ia / 8.0)[np.arange(N)]


def operand(e, k, src):
    """a copy of src in trap memory"""
    v = e.buf[k][:src.nbytes].view(src.dtype)
    v[:] = src
    return v


def build(e, name, n):
    """(thunk, [operands], holds the interpreter lock)"""
    np = e.np
    a, b, f = e.ia[:n], e.ib[:n], e.fa[:n]
    if name in ('add', 'compare', 'and'):
        x, y = operand(e, 0, a if name != 'and' else a > 0), operand(e, 1, b if name != 'and' else b > 50)
        o = operand(e, 2, np.zeros(n, '?' if name != 'add' else 'i4'))
        u = dict(add=np.add, compare=np.less).get(name, np.logical_and)
        return lambda: u(x, y, out=o), [x, y, o]
    if name == 'add scalar':
        x, o = operand(e, 0, a), operand(e, 2, np.zeros(n, 'i4'))
        return lambda: np.add(x, 5, out=o), [x, o]
    if name in ('sqrt', 'sin', 'isnan'):
        x, o = operand(e, 0, np.abs(f)), operand(e, 2, np.zeros(n, '?' if name == 'isnan' else 'f8'))
        if name == 'sin':
            return lambda: np.round(np.sin(x, out=o), 12) + 0.0, [x, o]
        return lambda: getattr(np, name)(x, out=o), [x, o]
    if name in ('sum', 'max', 'cumsum', 'argmax'):
        x = operand(e, 0, f if name == 'max' else a.astype('i8') if name == 'sum' else a)
        return lambda: getattr(x, name)(), [x]
    if name == 'inplace':
        x, y = operand(e, 0, a), operand(e, 1, b)
        return lambda: np.multiply(x, y, out=x), [x, y]
    if name.startswith('sort'):
        if name == 'sort str':
            x = operand(e, 0, a.astype('S4'))
        else:
            x = operand(e, 0, f if name == 'sort f' else a)

        def th():
            x.sort(kind='heapsort' if 'heap' in name else None)
            return x
        return th, [x]
    if name.startswith('argsort'):
        x = operand(e, 0, f if name == 'argsort f' else a)
        return lambda: np.argsort(x, kind='stable'), [x]
    if name == 'strided':
        x, o = operand(e, 0, a), operand(e, 2, np.zeros(n, 'i4'))
        return lambda: np.subtract(x[::2], x[1::2], out=o[::2][:n // 2]), [x, o]
    if name == 'convert':
        x, o = operand(e, 0, a), operand(e, 2, np.zeros(n, 'f8'))
        return lambda: np.add(x, 0.5, out=o), [x, o]
    if name == 'arange':
        x = operand(e, 0, np.zeros(n, 'i8'))
        x[0], x[1] = 7, 10

        def th():
            e.nd.fillfree(x)
            return x
        return th, [x]


def command(e, c, t0):
    """what the other thread does; returns (value, results)"""
    np = e.np
    if c == 'none':
        return None
    if c == 'fork':
        if not e.pn:
            return np.sort(e.ia).tobytes()[:40], (e.ia + e.ib).tobytes()[-40:]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import signal
                signal.alarm(20)
                os.close(r)
                x, y = np.sort(e.ia).tobytes()[:40], (e.ia + e.ib).tobytes()[-40:]
                os.write(w, x + y)
            finally:
                os._exit(0)
        os.close(w)
        d = b''
        while True:
            p = os.read(r, 1000)
            if not p:
                break
            d += p
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return (d[:40], d[40:]) if st == 0 else ('child ended with status', st)
    if c.startswith('op '):
        a, b = e.ia, e.ib
        return {'add': lambda: a[:100] + b[:100], 'big add': lambda: a + b, 'big sort': lambda: np.sort(a), 'big sum': lambda: a.sum(), 'arange': lambda: np.arange(9), 'mask': lambda: a[:50][a[:50] > 3],
                'argsort': lambda: np.argsort(a[:90], kind='stable'), 'big argsort': lambda: np.argsort(a, kind='stable'), 'same': lambda: np.sqrt(b)}[c[3:]]()
    return S.do(e, c)


def cases(g, e):
    np = e.np
    s0 = (True, bool(g['threads']), 3, bool(g['ledger']), False, bool(g['zigzag']), False)
    for n in (2000, N):
        th, opd = build(e, g['op'], n)
        for k, x in enumerate(opd):
            pages = -(-x.nbytes // 4096)
            if g['all'] or pages <= 4:
                sel = range(pages)
            else:
                sel = sorted({0, 1, pages // 4, pages // 2, pages - 2, pages - 1} if not k else {0, pages // 2, pages - 1})
            for p in sel:
                for c in CMDS:
                    if p and p != pages // 2 and k and c in ('info', 'init', 'recycler_enable', 'enable'):
                        continue

                    if not p and g['op'] == 'max' and c not in ('none', 'op big add', 'ledger_disable'):
                        continue      # holds the interpreter lock there

                    def run(n=n, k=k, p=p, c=c):
                        t, r = S.model(s0, c) if c not in ('none', 'fork') and not c.startswith('op ') else (s0, None)
                        th, opd = build(e, g['op'], n)
                        if not e.pn:
                            x = th()
                            if c in ('none', 'fork') or c.startswith('op '):
                                r = command(e, c, s0)
                            return np.array(x), r, t
                        S.goto(e, s0)
                        e.nd.trap_arm(opd[k].ctypes.data + p * 4096)
                        stopped = []

                        def other():
                            st = e.nd.trap_wait(20.0)
                            stopped.append(st)
                            if st == 2:
                                try:
                                    return command(e, c, s0)
                                finally:
                                    e.nd.trap_resume()
                            return RuntimeError('not stopped')
                        e.q.put(other)
                        try:
                            x = th()
                        finally:
                            e.nd.trap_done()
                            r2 = e.r.get()
                        if stopped[0] in (0, 4):      # this operation does not touch the page, or holds the interpreter lock there
                            r2 = command(e, c, s0)
                        elif isinstance(r2, BaseException):
                            raise r2
                        if c.startswith('workers') and type(r2) is int:
                            r2 = S.level(e, s0[2], r2)
                        return np.array(x), r2, S.observe(e, t)
                    yield '%s (n=%d, threads=%d, ledger=%d, zigzag=%d) stopped at page %d of operand %d, other thread: %s' % (g['op'], n, g['threads'], g['ledger'], g['zigzag'], p, k, c), run
    if e.pn:
        S.goto(e, S.BASE)
