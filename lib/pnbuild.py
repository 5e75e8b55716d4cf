"""Build pnumpy from /repo's current working tree, outside /repo.

stage(flavour) returns a directory D such that D/src is importable as the
pnumpy source tree (sys.path.insert(0, D/src)).  The list of sources, the
include directories and the compiler flags come from /repo's own setup.py
(setup() is stubbed, the Extension object is captured), so a change of the
build file is followed.  Flavours:

  real   the flags distutils uses (-O2 -DNDEBUG ...), plain g++
  mc     the same, plus -fsanitize=thread *instrumentation only*: every memory
         access and atomic operation calls a __tsan_* hook which is provided by
         /verif/mc/rt.cpp (libtsan itself is not linked)

Results are cached under /verif/.cache by the content hash of all inputs.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, json, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PN_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/vp/venv/bin/python'

CAPTURE = r'''
import sys, json, setuptools, os
cap = {}
def fake(**kw):
    e = kw['ext_modules'][0]
    cap.update(sources=list(e.sources), include=list(e.include_dirs), cflags=list(e.extra_compile_args or []),
               lflags=list(e.extra_link_args or []), macros=[list(m) for m in (e.define_macros or [])],
               libs=list(e.libraries or []), limited=bool(getattr(e, 'py_limited_api', False)),
               depends=list(e.depends or []))
setuptools.setup = fake
sys.argv = ['setup.py', 'build_ext']
sys.path.insert(0, os.getcwd())
g = {'__name__': '__main__', '__file__': 'setup.py'}
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), g)
import sysconfig, numpy
cap['py_include'] = sysconfig.get_path('include')
cap['cflags0'] = (sysconfig.get_config_var('CFLAGS') or '').split()
cap['ccshared'] = (sysconfig.get_config_var('CCSHARED') or '-fPIC').split()
json.dump(cap, open('_capture.json', 'w'))
'''


class BuildError(Exception):
    pass


def _copy_tree(dst):
    os.makedirs(dst)
    for name in sorted(os.listdir(REPO)):
        if name in ('.git', 'build', 'dist', 'docs', '.tox', '.pytest_cache', 'asv_bench', 'benchmarks'):
            continue
        s = os.path.join(REPO, name)
        d = os.path.join(dst, name)
        ig = shutil.ignore_patterns('*.so', '*.o', '__pycache__', '*.egg-info', 'PNUMPY.h', '_version.py')
        if os.path.isdir(s):
            shutil.copytree(s, d, ignore=ig, symlinks=True)
        else:
            shutil.copy2(s, d)


def _tree_hash(root, extra):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(root):
        dirs.sort()
        if base == root:
            dirs[:] = [d for d in dirs if d != 'tests']
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\1')
    h.update(extra.encode())
    return h.hexdigest()[:24]


def _env():
    env = {k: v for k, v in os.environ.items() if k not in
           ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'PYTHONHOME', 'PYTHONPATH',
            'NPY_DISABLE_CPU_FEATURES', 'SETUP_PY_EXT_COVERAGE')}
    env['PATH'] = '/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    return env


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def stage(flavour='real', workdir=None):
    extra_files = ''
    if flavour != 'real':
        for n in sorted(os.listdir(os.path.join(VERIF, 'mc'))):
            with open(os.path.join(VERIF, 'mc', n)) as f:
                extra_files += f.read()
    with open(__file__) as f:
        extra_files += f.read()
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='stage.', dir=CACHE)
    try:
        tree = os.path.join(tmp, 't')
        _copy_tree(tree)
        key = flavour + '-' + _tree_hash(tree, extra_files)
        final = os.path.join(CACHE, key)
        if os.path.exists(os.path.join(final, 'OK')):
            return final
        env = _env()
        # the tree has no .git: setuptools_scm falls back to the default version
        run([PY, '-c', CAPTURE], cwd=tree, env=env)
        cap = json.load(open(os.path.join(tree, '_capture.json')))
        compile_ext(tree, cap, flavour, env)
        open(os.path.join(tree, 'OK'), 'w').write(flavour)
        try:
            os.rename(tree, final)
        except OSError:
            if not os.path.exists(os.path.join(final, 'OK')):
                raise
        return final
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compile_ext(tree, cap, flavour, env):
    cflags = list(cap['cflags0']) + cap['ccshared'] + ['-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH']
    cflags += ['-D%s=%s' % (m[0], m[1]) if m[1] is not None else '-D' + m[0] for m in cap['macros']]
    inc = ['-I' + d for d in cap['include']] + ['-I' + cap['py_include']]
    tail = list(cap['cflags']) + ['-w']
    if flavour == 'mc':
        tail += ['-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1', '-fno-omit-frame-pointer',
                 '-include', os.path.join(VERIF, 'mc', 'mcpre.h')]
    obj = os.path.join(tree, '_obj')
    os.makedirs(obj, exist_ok=True)
    jobs, objs, opt = [], [], []
    for s in cap['sources']:
        o = os.path.join(obj, s.replace('/', '_') + '.o')
        objs.append(o)
        jobs.append((os.path.getsize(os.path.join(tree, s)), ['g++'] + cflags + inc + ['-c', s, '-o', o] + tail))
    if flavour == 'mc':
        o = os.path.join(obj, 'rt.o')
        objs.append(o)
        jobs.append((10**9, ['g++', '-O2', '-g', '-fPIC', '-std=c++17', '-w', '-mavx2', '-I' + cap['py_include'],
                             '-c', os.path.join(VERIF, 'mc', 'rt.cpp'), '-o', o]))
        # entry points for the scenarios; one that no longer compiles against this tree is left out
        for n in sorted(os.listdir(os.path.join(VERIF, 'mc'))):
            if n.startswith('scen_'):
                opt.append((n, os.path.join(obj, n + '.o')))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        extra = [(o, ex.submit(run, ['g++'] + cflags + inc + ['-I' + os.path.join(tree, 'src', 'atop'), '-c', os.path.join(VERIF, 'mc', n),
                                                              '-o', o] + tail, cwd=tree, env=env)) for n, o in opt]
        for r in [ex.submit(run, c, cwd=tree, env=env) for _, c in jobs]:
            r.result()
        for o, r in extra:
            try:
                r.result()
                objs.append(o)
            except BuildError as e:
                open(os.path.join(tree, 'SKIPPED'), 'a').write(str(e)[:3000] + '\n')
    out = os.path.join(tree, 'src', 'pnumpy', '_pnumpy.abi3.so')
    link = ['g++', '-shared', '-Wl,-O1', '-Wl,-Bsymbolic'] if flavour == 'mc' else \
           ['g++', '-shared', '-Wl,-O1', '-Wl,-Bsymbolic-functions']
    run(link + objs + ['-o', out] + cap['lflags'] + ['-l' + l for l in cap['libs']] + ['-pthread', '-ldl'], cwd=tree, env=env)
    shutil.rmtree(obj)


def ndmod():
    """build the nd helper extension, return the directory to put on PYTHONPATH"""
    src = os.path.join(VERIF, 'nd', 'nd.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(CACHE, 'nd-' + h)
    if os.path.exists(os.path.join(d, 'nd.so')):
        return d
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='nd.', dir=CACHE)
    inc = run([PY, '-c', 'import numpy,sysconfig;print(sysconfig.get_path("include"));print(numpy.get_include())'],
              env=_env()).split()
    run(['gcc', '-O2', '-g', '-w', '-shared', '-fPIC'] + ['-I' + i for i in inc] + [src, '-o', os.path.join(tmp, 'nd.so'), '-lm'])
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


if __name__ == '__main__':
    import time
    t = time.time()
    print(stage(sys.argv[1] if len(sys.argv) > 1 else 'real'), round(time.time() - t, 1), 's')
