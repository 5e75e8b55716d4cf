"""Exhaustive differential exploration of the ufunc inner loops pnumpy installs.

parent:  run(stage_dir, jobs, ...) -> results            (spawns worker processes, attributes crashes)
worker:  python loopdiff.py <stage_dir> <fd of jobs>     (one JSON job per line on stdin, one JSON result per line on stdout)

A job is {"u": ufunc name, "t": type signature, "part": part name, "cfg": {...}}.
"""
import json, mmap, os, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

STATUS = ['n', 's1', 's2', 'so', 'o1', 'o2', 'oo', 'phase', 'alias', 'stage']


# ----------------------------------------------------------------------------- worker
def worker(stage, status_path):
    import ctypes
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import nd
    from pools import TYPECH, SIZE, alphabet, every, pairs
    ufs = {n: getattr(np, n) for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}
    before = {n: nd.loops(f) for n, f in ufs.items()}
    sys.path.insert(0, os.path.join(stage, 'src'))
    import pnumpy as pn
    import pnumpy._pnumpy as pc
    assert pn.__file__.startswith(stage), pn.__file__
    after = {n: nd.loops(f) for n, f in ufs.items()}
    f = open(status_path, 'r+b')
    mm = mmap.mmap(f.fileno(), 4096)
    addr = ctypes.addressof(ctypes.c_char.from_buffer(mm))
    nd.init(addr, 4 << 20)
    np.seterr(all='ignore')

    table = {}
    for n in ufs:
        for b, a in zip(before[n], after[n]):
            sig = ''.join(TYPECH[t] for t in b[0])
            if b[1:] != a[1:]:
                table[n, sig] = (ufs[n].nin, b[1], b[2], a[1], a[2])

    def i64(x):
        return np.ascontiguousarray(np.array(x, dtype='i8')).tobytes()

    def call(key, p1, p2, lens, pats, offs, phases, alias, mode):
        nin, fo, do, fh, dh = table[key]
        sig = key[1]
        s1 = SIZE[sig[0]]
        s2 = SIZE[sig[1]] if nin == 2 else 1
        so = SIZE[sig[-1]]
        pats = [(a * s1, b * s2, c * so) for a, b, c in pats]

        def o(e, s):
            return e * s if e >= 0 else -((-e - 1) * s) - 1
        offs = [(o(a, s1), o(b, s2), o(c, so)) for a, b, c in offs]
        m, tol, atol = mode
        return nd.elementwise(fo, do, fh, dh, nin, s1, s2, so, p1.tobytes(), (p2 if p2 is not None else p1).tobytes(),
                              i64(lens), i64(pats), i64(offs), i64(phases), alias, m, tol, atol)

    for line in sys.stdin:
        job = json.loads(line)
        if job.get('op') == 'table':
            print(json.dumps({'table': [[k[0], k[1], v[0]] for k, v in sorted(table.items())]}), flush=True)
            continue
        key = (job['u'], job['t'])
        if key not in table:
            print(json.dumps({'job': job, 'evals': 0, 'nontrivial': 0, 'res': None, 'absent': True}), flush=True)
            continue
        for i in range(16):
            mm[i * 8:i * 8 + 8] = b'\0' * 8
        (pc.thread_enable if job['cfg'].get('threads') else pc.thread_disable)()
        if job['cfg'].get('workers') is not None:
            pc.thread_setworkers(job['cfg']['workers'])
        if job['cfg'].get('zigzag') is not None:
            pc.thread_zigzag(bool(job['cfg']['zigzag']))
        import loopparts
        ev = nt = 0
        bad = None
        if job['part'] in ('reduce', 'reducelarge'):
            nin, fo, do, fh, dh = table[key]
            it = loopparts.reduces(key[0], key[1], job['part'], job.get('tier', 'quick'))
            run1 = lambda sp: nd.reduce(fo, do, fh, dh, SIZE[key[1][0]], sp[0].tobytes(), sp[1].tobytes(), i64(sp[2]), i64(sp[3]),
                                        i64(sp[4]), i64(sp[5]), sp[6])
        elif job['part'] in ('flags', 'flagslarge'):
            nin, fo, do, fh, dh = table[key]
            sz = [SIZE[key[1][0]], SIZE[key[1][1]] if nin == 2 else 1, SIZE[key[1][-1]]]
            it = loopparts.flagspecs(key[0], key[1], nin, job['part'], job.get('tier', 'quick'))
            run1 = lambda sp: nd.flags(fo, do, fh, dh, nin, sz[0], sz[1], sz[2], sp[0].tobytes(), sp[1].tobytes(), sp[2].tobytes(), sp[3].tobytes(),
                                       i64(sp[4]), i64(sp[5]), i64(sp[6]), sp[7])
        else:
            it = loopparts.specs(key[0], key[1], table[key][0], job['part'], job.get('tier', 'quick'))
            run1 = lambda sp: call(key, *sp)
        for spec in it:
            r, e, t = run1(spec)
            ev += e
            nt += t
            if r:
                sig = key[1]
                for k, c in (('in1', sig[0]), ('in2', sig[-2]), ('got', sig[-1]), ('want', sig[-1])):
                    if k in r:
                        v = np.frombuffer(r[k][:SIZE[c]], c)
                        r[k] = '%s [%s]' % (v[0], r[k].hex())
                if 'special' in r:
                    r['values'] = [str(spec[2][r['special']]), str(spec[3][r['special']])]
                bad = r
                break
        print(json.dumps({'job': job, 'evals': ev, 'nontrivial': nt, 'res': bad}, default=str), flush=True)


# ----------------------------------------------------------------------------- parent
class Proc:
    def __init__(self, py, stage, ndmod, env):
        fd, self.path = tempfile.mkstemp(prefix='pnstatus')
        os.write(fd, b'\0' * 4096)
        self.f = fd
        e = dict(env)
        e['PYTHONPATH'] = ndmod
        self.p = subprocess.Popen([py, os.path.abspath(__file__), stage, self.path], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        self.err = []
        self.errt = threading.Thread(target=lambda: self.err.append(self.p.stderr.read()[-2000:]), daemon=True)
        self.errt.start()

    def status(self):
        import struct
        b = os.pread(self.f, 128, 0)
        return dict(zip(STATUS, struct.unpack('10q', b[:80])))

    def ask(self, job):
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            rc = self.p.wait()
            self.errt.join(5)
            return {'job': job, 'evals': 0, 'nontrivial': 0,
                    'res': {'kind': 'process died', 'rc': rc, 'at': self.status(), 'stderr': (self.err or [''])[0][-600:]}}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        os.close(self.f)
        os.unlink(self.path)


def run(stage, jobs, nproc=8, job_timeout=300):
    """jobs: list of job dicts -> list of results (same order)"""
    import pnbuild
    ndmod = pnbuild.ndmod()
    env = pnbuild._env()
    results = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def th():
        proc = None
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                break
            if proc is None:
                proc = Proc(pnbuild.PY, stage, ndmod, env)
            timed = []

            def kill(p=proc):
                timed.append(1)
                p.p.kill()
            tm = threading.Timer(job_timeout, kill)
            tm.start()
            r = proc.ask(jobs[i])
            tm.cancel()
            if timed and r.get('res'):
                r['res']['kind'] = 'did not return'
            results[i] = r
            if r.get('res') and r['res'].get('kind') in ('process died', 'did not return'):
                proc.close()
                proc = None
        if proc:
            proc.close()
    ts = [threading.Thread(target=th) for _ in range(nproc)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return results


def table(stage):
    import pnbuild
    p = Proc(pnbuild.PY, stage, pnbuild.ndmod(), pnbuild._env())
    r = p.ask({'op': 'table'})
    p.close()
    if 'table' not in r:
        return None, r
    return [(a, b, c) for a, b, c in r['table']], None


if __name__ == '__main__':
    worker(sys.argv[1], sys.argv[2])
