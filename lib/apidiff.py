"""Exhaustive differential exploration of the public array functions.

Every case is executed twice: in a process with the package under test imported, and in a process with numpy alone (the reference).
A suite module defines
    groups(tier)      -> list of JSON descriptors
    cases(g, env)     -> generator of (label, thunk); env.pn is the package or None, env.np numpy
and a thunk returns arrays/scalars/containers of them; both processes must give the same canonical form (dtype, shape, bytes) or raise
the same type of exception.

worker:  python apidiff.py worker <suite> <stage dir or -> <progress file>
"""
import hashlib, importlib, json, mmap, os, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


# ----------------------------------------------------------------------------- worker
def data(r, np):
    if r.dtype.char in 'gG':      # without the padding of the x87 format
        return np.frombuffer(r.astype(r.dtype.newbyteorder('=')).tobytes(), 'u1').reshape(-1, 16)[:, :10].tobytes()
    return r.tobytes()


def canon(r, h, np):
    if isinstance(r, np.ma.MaskedArray):
        h.update(b'M')
        canon(np.array(r.data), h, np)
        canon(np.array(np.ma.getmaskarray(r)), h, np)
    elif isinstance(r, np.ndarray):
        h.update(('A%s%r%s' % (r.dtype.str if r.dtype.names is None else r.dtype.descr, r.shape, type(r).__name__)).encode())
        r = r.view(np.ndarray)
        if r.dtype.names is not None:      # without the padding
            for f in r.dtype.names:
                canon(r[f], h, np)
        elif r.dtype.hasobject and r.size > 2000:
            h.update(repr(r.ravel().tolist()).encode())
        elif r.dtype.hasobject:
            for x in r.ravel().tolist():
                canon(x, h, np)
        else:
            h.update(data(r, np))
    elif isinstance(r, np.generic):
        h.update(('G' + r.dtype.str).encode())
        h.update(data(np.asarray(r), np))
    elif isinstance(r, (tuple, list)):
        h.update(('T%s%d' % (type(r).__name__, len(r))).encode())
        for x in r:
            canon(x, h, np)
    elif isinstance(r, dict):
        h.update(('D%d' % len(r)).encode())
        for k, v in r.items():
            canon(k, h, np)
            canon(v, h, np)
    else:
        h.update(('O%s%r' % (type(r).__name__, r)).encode())


def show(r, np, depth=0):
    try:
        return show1(r, np, depth)
    except Exception as e:
        return '%s that cannot be shown: %r' % (type(r).__name__, e)


def show1(r, np, depth):
    if isinstance(r, np.ndarray):
        s = np.array2string(r, threshold=40, edgeitems=8) if r.dtype.names is None else repr(r)[:600]
        return '%s%s %s' % (r.dtype.str, list(r.shape), s[:900])
    if isinstance(r, (tuple, list)) and depth < 2:
        return '(' + ', '.join(show(x, np, depth + 1) for x in r)[:1200] + ')'
    if isinstance(r, dict):
        return '{' + ', '.join('%r: %s' % (k, show(v, np, depth + 1)) for k, v in r.items())[:1200] + '}'
    return '%s:%r' % (type(r).__name__, r)


class Env:
    pass


def one(th, np):
    """returns (digest, result or exception)"""
    h = hashlib.blake2b(digest_size=8)
    try:
        r = th()
    except Exception as e:
        h.update(('E' + type(e).__name__).encode())
        return h.digest(), e
    canon(r, h, np)
    return h.digest(), r


def worker(suite, stage, path):
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    if hasattr(sys, 'set_int_max_str_digits'):
        sys.set_int_max_str_digits(0)
    e = Env()
    e.np, e.pn, e.pc, e.ref = np, None, None, stage == '-'
    import nd
    e.nd = nd
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    if stage != '-':
        sys.path.insert(0, os.path.join(stage, 'src'))
        import pnumpy
        assert pnumpy.__file__.startswith(stage), pnumpy.__file__
        e.pn = pnumpy
        import pnumpy._pnumpy as pc
        e.pc = pc
    m = importlib.import_module(suite)
    if hasattr(m, 'setup'):
        m.setup(e)
    f = open(path, 'r+b')
    mm = mmap.mmap(f.fileno(), 4096)
    print('ready', file=out, flush=True)
    for line in sys.stdin:
        g, skip, want = json.loads(line)
        dig, n, t = [], -1, ''
        det = None
        mm[0:8] = struct.pack('<q', -1)
        for n, (label, th) in enumerate(m.cases(g, e)):
            if n in skip:
                dig.append(b'\0' * 8)
                continue
            if want is not None and n > want:
                break
            if want is None or n == want:
                mm[0:8] = struct.pack('<q', n)
                b = label.encode()[:4000]
                mm[8:12 + len(b)] = struct.pack('<i', len(b)) + b
                d, r = one(th, np)
                dig.append(d)
                if n == want:
                    det = (label, 'raises %s: %s' % (type(r).__name__, r) if isinstance(r, Exception) else show(r, np))
            del th
        if want is not None:
            print(json.dumps(det), file=out, flush=True)
        else:
            b = b''.join(dig)
            print(b.hex(), file=out, flush=True)
    os._exit(0)


# ----------------------------------------------------------------------------- parent
class Dead(Exception):
    pass


class Proc:
    def __init__(self, suite, stage, ndmod):
        import pnbuild
        fd, self.path = tempfile.mkstemp(prefix='pnapi')
        os.write(fd, b'\xff' * 8 + b'\0' * 4088)
        self.fd = fd
        env = pnbuild._env()
        env['PYTHONPATH'] = ndmod
        self.p = subprocess.Popen([pnbuild.PY, os.path.abspath(__file__), 'worker', suite, stage, self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, env=env)
        self.err = b''
        self.errlines = []
        threading.Thread(target=lambda: self.errlines.append(self.p.stderr.read()[-3000:]), daemon=True).start()
        self.started = False

    def where(self):
        n, = struct.unpack('<q', os.pread(self.fd, 8, 0))
        ln, = struct.unpack('<i', os.pread(self.fd, 4, 8))
        return n, os.pread(self.fd, max(0, min(ln, 4000)), 12).decode(errors='replace')

    def _line(self, timeout):
        """one line of output; Dead if the process ends, or makes no progress for timeout seconds"""
        res = []
        t = threading.Thread(target=lambda: res.append(self.p.stdout.readline()), daemon=True)
        t.start()
        last, t0 = None, time.time()
        while True:
            t.join(0.5)
            if not t.is_alive():
                break
            w = self.where()
            if w != last:
                last, t0 = w, time.time()
            elif time.time() - t0 > timeout:
                self.p.kill()
                t.join()
                raise Dead('does not return (%d s)' % timeout)
        if not res or not res[0]:
            self.p.wait()
            time.sleep(0.2)
            tail = ''.join(self.errlines)[-600:]
            raise Dead('process ended with status %d%s' % (self.p.returncode, (': ' + tail) if self.p.returncode > 0 else ''))
        return res[0]

    def ask(self, g, skip=(), want=None, timeout=60):
        if not self.started:
            if self._line(120).strip() != 'ready':
                raise Dead('not started')
            self.started = True
        try:
            self.p.stdin.write(json.dumps([g, list(skip), want]) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        return self._line(timeout)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
            os.close(self.fd)
            os.unlink(self.path)
        except OSError:
            pass


class Pair:
    """a reference and a test process; each is restarted when it ends"""

    def __init__(self, suite, stage, ndmod, timeout):
        self.suite, self.stage, self.ndmod, self.timeout = suite, stage, ndmod, timeout
        self.t = self.r = None

    def test(self, g, skip=(), want=None):
        if self.t is None:
            self.t = Proc(self.suite, self.stage, self.ndmod)
        try:
            return self.t.ask(g, skip, want, self.timeout)
        except Dead:
            self.dead = self.t.where()
            self.t.close()
            self.t = None
            raise

    def ref(self, g, skip=(), want=None):
        if self.r is None:
            self.r = Proc(self.suite, '-', self.ndmod)
        try:
            return self.r.ask(g, skip, want, self.timeout * 5)
        except Dead as e:
            raise RuntimeError('numpy alone, %s at %s: %s' % (g, self.r.where()[1], e))

    def close(self):
        for x in (self.t, self.r):
            if x:
                x.close()
        self.t = self.r = None


def group(pair, g, maxbad=3):
    """returns dict(g, cases, bad=[(index, label, what)])"""
    bad, skip = [], []
    ref = bytes.fromhex(pair.ref(g).strip())
    while True:
        try:
            got = bytes.fromhex(pair.test(g, skip).strip())
            break
        except Dead as e:
            n, label = pair.dead
            bad.append((n, label, str(e)))
            skip.append(n)
            if n < 0 or len(bad) >= maxbad:
                return dict(g=g, cases=len(ref) // 8, bad=bad)
    nref, ngot = len(ref) // 8, len(got) // 8
    if nref != ngot:
        bad.append((-1, 'number of cases', '%d and %d' % (ngot, nref)))
    for i in range(min(nref, ngot)):
        if got[i * 8:i * 8 + 8] != ref[i * 8:i * 8 + 8] and i not in skip:
            try:
                a = json.loads(pair.test(g, (), i))
                b = json.loads(pair.ref(g, (), i))
                bad.append((i, a[0], 'got %s, numpy alone %s' % (a[1], b[1])))
            except Dead as e:
                bad.append((i, pair.dead[1], str(e)))
            if len(bad) >= maxbad:
                break
    distinct = len({ref[i * 8:i * 8 + 8] for i in range(nref)})
    return dict(g=g, cases=nref, bad=bad, distinct=distinct)


def run(suite, stage, groups, nproc=6, timeout=60, deadline=None):
    import pnbuild
    ndmod = pnbuild.ndmod()
    todo = list(enumerate(groups))[::-1]
    res = [None] * len(groups)
    lock = threading.Lock()

    def work():
        pair = Pair(suite, stage, ndmod, timeout)
        try:
            while True:
                with lock:
                    if not todo or (deadline and time.time() > deadline):
                        return
                    i, g = todo.pop()
                t = time.time()
                res[i] = group(pair, g)
                res[i]['t'] = round(time.time() - t, 1)
        finally:
            pair.close()
    with ThreadPoolExecutor(nproc) as ex:
        for f in [ex.submit(work) for _ in range(min(nproc, max(1, len(groups))))]:
            f.result()
    return res


if __name__ == '__main__' and sys.argv[1] == 'worker':
    worker(*sys.argv[2:5])
