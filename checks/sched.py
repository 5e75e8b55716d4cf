"""P01-P09: exploration of the thread schedules of the real code (runtime /verif/mc/rt.cpp, driver lib/mcrun.py)."""
import json
import mcrun, pnbuild
from checklib import Check

BIG = 65536


def L(u, t, n=BIG, form='new', **kw):
    return dict(loop=[u, t], n=n, form=form, **kw)


def O(op, n=BIG, **kw):
    return dict(op=op, n=n, **kw)


ADD = L('add', 'bb->b', form='inplace')
FORK = {'op': 'fork'}


def S(what, value, fiber=1):
    return dict(op='setting', what=what, value=value, fiber=fiber)


def sort(**kw):
    return O('sort', **dict(dict(mode=2, dt='i4', shape='interleaved'), **kw))


def index(**kw):
    return O('index64', **dict(dict(mode=2, dt='i4', shape='interleaved'), **kw))


def cut(c, **kw):
    return O('indexcut64', n=c[-1], cut=c, **dict(dict(mode=2, dt='i4', shape='interleaved'), **kw))


def p01(th):
    out = []
    loops = [ADD, L('add', 'bb->b', 65537, 'inplace'), L('add', 'hh->h', 81919), L('subtract', 'dd->d'), L('multiply', 'ii->i', 65537),
             L('greater', 'dd->?', 65537), L('equal', 'bb->?'), L('less_equal', 'll->?', 81919), L('negative', 'i->i', 65537), L('sqrt', 'd->d'),
             L('absolute', 'h->h', 81919), L('isnan', 'f->?'), L('sin', 'f->f', 65537, ref='self'), L('exp', 'd->d', ref='self'), L('log', 'f->f', ref='self'),
             L('add', 'll->l', 65537, 'reduce'), L('maximum', 'hh->h', 81919, 'reduce'), L('bitwise_xor', 'bb->b', 65537, 'reduce'),
             L('add', 'ii->i', BIG, 'reduce'), L('minimum', 'dd->d', 65537, 'reduce'), L('multiply', 'bb->b', BIG, 'reduce')]
    # loops that run numpy's own code on every block
    plain = [L('add', 'bb->b', 65537, 'inplace'), L('subtract', 'dd->d', 81919), L('less', 'ff->?', 65537), L('negative', 'h->h', 65537), L('sqrt', 'f->f'),
             L('sin', 'd->d', 65537, ref='self'), L('add', 'll->l', 81919, 'reduce'), L('maximum', 'bb->b', 65537, 'reduce')]
    for o in loops:
        out += [dict(cpus=2, bound=3 if th else 2, ops=[o]), dict(cpus=3, bound=2 if th else 1, ops=[o])]
    for o in plain:
        out += [dict(cpus=2, bound=3 if th else 2, ops=[o], atop=False), dict(cpus=3, bound=2 if th else 1, ops=[o], atop=False)]
    for o in (ADD, L('negative', 'i->i', 65537), L('add', 'ii->i', 65537, 'reduce'), L('greater', 'dd->?', 81919)):
        out += [dict(cpus=2, bound=3 if th else 2, ops=[o], zigzag=1), dict(cpus=3, bound=2 if th else 1, ops=[o, o], zigzag=1)]
    out += [dict(cpus=4, bound=2 if th else 1, ops=[o]) for o in (ADD, L('add', 'll->l', BIG * 2 + 1, 'reduce'))]
    out += [dict(cpus=6, bound=1, ops=[L('add', 'bb->b', BIG * 3 + 5, 'inplace')]), dict(cpus=2, bound=99, ops=[ADD])]
    out += [dict(cpus=2, bound=2, ops=[L('add', 'bb->b', 65535, 'inplace')]), dict(cpus=2, bound=2, ops=[ADD], threads=False)]
    # every loop the module replaced, vectorized or numpy's own on every block
    for at in (True, False):
        out += [dict(cpus=2, bound=0, every=[k, 24], n=n, atop=at, ops=[], cost=5) for n in (65537, 81919) for k in range(24)]
        if th:
            out += [dict(cpus=2, bound=1, every=[k, 600], n=65537, atop=at, ops=[], cost=5) for k in range(600)]
    if th:
        out += [dict(cpus=3, bound=3, ops=[ADD]), dict(cpus=8, bound=1, ops=[L('add', 'bb->b', BIG * 4, 'inplace')])]
    return out


def p02(th):
    out = []
    count, chunk = O('count', 4), O('chunk')
    for o in (ADD, count, chunk, O('count', 1), O('count', 0)):
        for c in (1, 2, 3, 4, 5, 6) + ((7, 8) if th else ()):
            out.append(dict(cpus=c, bound=(3 if c < 3 else 2) if th else (2 if c < 3 else 1), ops=[o]))
        out.append(dict(cpus=3, bound=1, dead=[0, 1, 2], ops=[o, o]))
        out.append(dict(cpus=6, bound=1, dead=[1, 3, 4], ops=[o, o]))
    # the threads the kernel wakes are not those the work item is for
    for o in (ADD, count, chunk):
        for c, order in ((3, [1, 0, 2]), (4, [2, 0, 1, 3]), (5, [4, 3, 2, 1, 0])):
            for w in (1, 2):
                out.append(dict(cpus=c, order=order, workers=w, bound=2 if th else 1, ops=[o, o]))
        # threads that have not begun to run yet
        for c, order in ((2, []), (2, [1]), (3, []), (3, [2])):
            out.append(dict(cpus=c, order=order, bound=2 if th or c == 2 else 1, ops=[o]))
    out += [dict(cpus=2, bound=4 if th else 3, ops=[ADD, ADD]), dict(cpus=2, bound=99, ops=[count]), dict(cpus=2, bound=99, ops=[ADD]),
            dict(cpus=3, bound=2 if th else 1, ops=[ADD, ADD, ADD], workers=1),
            dict(cpus=2, bound=3, ops=[count, count]), dict(cpus=2, bound=3, ops=[chunk, chunk])]
    # every size of the pool, and more processors than it uses
    for c in range(7 if not th else 9, 21):
        out += [dict(cpus=c, bound=1 if th else 0, ops=[o]) for o in (ADD, O('count', c), chunk)]
    return [dict(s, race=0) for s in out]


def p03(th):
    f = lambda o, k: dict(o, fiber=k)
    pairs = [(ADD, L('add', 'bb->b', form='inplace', seed=7)), (ADD, O('count', 4)), (O('chunk'), O('chunk', 81919)), (O('count', 3), O('count', 4)),
             (L('negative', 'i->i', 65537), L('greater', 'dd->?')), (L('add', 'll->l', 65537, 'reduce'), L('add', 'll->l', 81919, 'reduce', seed=3)),
             (ADD, L('add', 'ii->i', 65537, 'reduce')), (O('nested', 2, m=2), O('count', 3))]
    out = []
    for a, b in pairs:
        out.append(dict(cpus=2, nmain=2, bound=3 if th else 2, ops=[f(a, 0), f(b, 1)]))
        out.append(dict(cpus=3, nmain=2, bound=2 if th else 1, ops=[f(a, 0), f(b, 1)]))
    out += [dict(cpus=2, nmain=3, bound=2 if th else 1, ops=[f(ADD, 0), f(L('add', 'bb->b', form='inplace', seed=7), 1), f(O('count', 3), 2)]),
            dict(cpus=2, nmain=2, bound=2 if th else 1, ops=[f(ADD, 0), f(O('chunk'), 0), f(O('count', 3), 1), f(L('negative', 'b->b'), 1)]),
            dict(cpus=2, nmain=2, bound=1, ops=[f(sort(), 0), f(sort(shape='descending'), 1)]),
            dict(cpus=2, nmain=2, bound=1, ops=[f(index(), 0), f(ADD, 1)])]
    # every loop the module replaced and every kind of sort on small data of two threads: nothing is shared
    for n in (100, 20000):
        out += [dict(cpus=2, nmain=2, bound=1, race=1, every=[k, 24], n=n, ops=[]) for k in range(24)]
    for n in (37, 200, 3000):
        for dt in ('i1', 'u2', 'i4', 'i8', 'f4', 'f8'):
            for o in [sort(n=n, dt=dt, mode=m) for m in (0, 1, 2)] + [index(n=n, dt=dt), O('index32', n, mode=2, dt=dt)]:
                out.append(dict(cpus=2, nmain=2, bound=1, race=1, ops=[f(dict(o, shape='ties'), 0), f(dict(o, shape='descending'), 1)]))
    return out


def p04(th):
    a2 = L('add', 'hh->h', 65537, 'inplace')
    out = []
    seqs = [(ADD, a2), (O('count', 4), ADD), (ADD, L('add', 'll->l', 65537, 'reduce')), (L('negative', 'b->b', 81919), L('greater', 'bb->?')),
            (O('chunk'), O('count', 3)), (L('add', 'll->l', 65537, 'reduce'), L('add', 'll->l', 81919, 'reduce', seed=4))]
    for a, b in seqs:
        out += [dict(cpus=2, bound=3 if th else 2, ops=[a, b]), dict(cpus=3, bound=2 if th else 1, ops=[a, b])]
        # the ring of 1024 work items has been used once, slots are used again
        out += [dict(cpus=2, bound=2, ops=[a, b], warm=1023), dict(cpus=2, bound=2 if th else 1, ops=[a, b, a], warm=1022)]
    out += [dict(cpus=2, bound=2, ops=[ADD, a2, ADD]), dict(cpus=2, bound=2 if th else 1, ops=[ADD, a2, O('count', 3), O('chunk')]),
            dict(cpus=2, bound=2 if th else 1, ops=[ADD, sort(), ADD]), dict(cpus=2, bound=1, ops=[index(), sort(shape='descending')]),
            dict(cpus=3, bound=1, ops=[ADD, a2, ADD, a2], zigzag=1), dict(cpus=2, bound=1, ops=[ADD] * 6)]
    if th:
        out.append(dict(cpus=2, bound=3, ops=[ADD, a2], warm=2047))
    return out


def p05(th):
    out = []
    s = [sort(), sort(dt='f8', shape='ties'), sort(mode=0, dt='i8', shape='descending'), sort(mode=1, dt='u1', shape='ties'), sort(n=65537, inplace=1),
         sort(n=100003, dt='f4', shape='descending')]
    i = [index(), index(dt='f8', shape='ties'), index(n=65543, dt='i8', shape='descending'), O('index32', mode=2, dt='u2', shape='ties'), index(n=131072)]
    c = [cut([100, 200, 300]), cut([1, 2, 50, 300]), cut([40, 300], dt='f8', shape='ties'), cut([300], shape='descending')]
    for o in s + i:
        out += [dict(cpus=2, bound=1, ops=[o], cost=2), dict(cpus=3, bound=1, ops=[o], cost=3)]
    out += [dict(cpus=2, bound=2, ops=[index()], cost=20), dict(cpus=2, bound=2, ops=[sort()], cost=30)]
    for o in c:
        out += [dict(cpus=2, bound=3 if th else 2, ops=[o]), dict(cpus=3, bound=2, ops=[o]), dict(cpus=3, bound=1, ops=[o, o], workers=1),
                dict(cpus=1, bound=1, ops=[o])]
    if th:
        for o in s[1:] + i[1:]:
            out += [dict(cpus=2, bound=2, ops=[o], cost=30)]
        out += [dict(cpus=3, bound=2, ops=[index()], cost=150), dict(cpus=4, bound=1, ops=[sort()], cost=9), dict(cpus=2, bound=3, ops=[index()], cost=160)]
    return out


def p06(th):
    ops = [O('count', 1), O('count', 2), O('count', 5), O('chunk'), O('chunk', 65537), O('chunk', 81919), O('rec'), O('rec', 65537), O('nested', 3, m=2),
           O('nested', 2, m=4), O('arange', dt='i4'), O('arange', 65537, dt='f8'), O('arange', 81919, dt='i8', wake=2), O('arange', dt='f4'),
           O('issorted', dt='i4'), O('issorted', 65537, dt='f8'), O('issorted', 81919, dt='i2', dips=[30000]), O('issorted', dt='i8', dips=[16384]),
           O('issorted', dt='i8', dips=[65535]), O('count', 4, wake=1), O('chunk', wake=1)]
    out = []
    for o in ops:
        out += [dict(cpus=2, bound=3 if th else 2, ops=[o]), dict(cpus=3, bound=2 if th else 1, ops=[o])]
    out += [dict(cpus=3, bound=1, ops=[o, o], workers=1) for o in ops[:4] + ops[8:9]]
    out += [dict(cpus=2, bound=99, ops=[O('count', 3)]), dict(cpus=2, bound=99, ops=[O('chunk')])]
    return [dict(s, race=1) for s in out]


def p07(th):
    out = []
    for o in (ADD, O('count', 4), O('chunk'), L('add', 'll->l', 65537, 'reduce')):
        for seq in ([S(1, 1), S(1, 9)], [S(0, 1), S(0, 0)], [S(2, 0), S(2, 3)], [S(2, 3), S(0, 1)], [S(1, 0), S(1, 2)]):
            for z in (0, 1):
                out.append(dict(cpus=2, nmain=2, bound=3 if th else 2, zigzag=z, ops=[o] + seq))
            out.append(dict(cpus=3, nmain=2, bound=2 if th else 1, ops=[o] + seq))
            out.append(dict(cpus=2, nmain=2, bound=2 if th else 1, ops=[o, o] + seq))
    out.append(dict(cpus=6, nmain=2, bound=1, ops=[ADD, ADD, S(1, 1), S(1, 5)]))
    # the direction of the items that follow each other
    for a, b in ((ADD, ADD), (O('chunk', 81919),) * 2, (L('negative', 'b->b', 81919), L('add', 'bb->b', 81919, 'inplace'))):
        out.append(dict(cpus=2, bound=3 if th else 2, zigzag=1, ops=[a, b], cost=12))
    if th:
        out += [dict(cpus=2, bound=2, zigzag=1, ops=[O('count', 2), a, a], cost=50) for a in (ADD, L('add', 'bb->b', 98304, 'inplace'))]
    return out


def p08(th):
    f = lambda o, k: dict(o, fiber=k)
    out = []
    for o in (ADD, O('count', 3), O('chunk'), L('add', 'll->l', 65537, 'reduce')):
        out += [dict(cpus=2, bound=5 if th else 4, ops=[o, FORK, o]), dict(cpus=3, bound=3 if th else 2, ops=[o, FORK, o]),
                dict(cpus=2, nmain=2, bound=3 if th else 2, ops=[o, f(FORK, 1), f(o, 1), f(o, 1)]),
                dict(cpus=2, nmain=2, bound=2, ops=[o, f(O('count', 2), 1), f(FORK, 1), f(o, 1)])]
    out += [dict(cpus=2, bound=1, ops=[sort(), FORK, sort()]), dict(cpus=2, bound=2, ops=[ADD, FORK, FORK, ADD, cut([50, 100])])]
    # blocks for every channel of the child, whose pools have no thread
    for c in (5, 6, 8):
        for o in (L('add', 'bb->b', 16384 * (c + 2) + 5, 'inplace'), O('count', 2 * c), O('chunk', 16384 * (c + 2) + 5), L('add', 'll->l', 16384 * (c + 2), 'reduce'),
                  L('sin', 'f->f', 16384 * (2 * c + 1) + 5, ref='self')):
            out.append(dict(cpus=c, bound=2, ops=[FORK, o, o]))
            if 'loop' in o and o['loop'][0] != 'sin' or c == 5 and 'loop' not in o or th and c == 6 and 'loop' not in o:
                out.append(dict(cpus=c, bound=1, ops=[o, FORK, o]))
        out += [dict(cpus=c, bound=1, ops=[FORK, index()]), dict(cpus=c, bound=1, ops=[FORK, sort(n=100003)]), dict(cpus=c, bound=1, ops=[FORK, cut(list(range(10, 10 * 2 * c, 10)))])]
    return out


def p09(th):
    out = []
    ops = [sort(), sort(mode=0), index(), O('index32', mode=2, dt='f8', shape='ties'), sort(n=3000), index(n=3000), cut([100, 200, 300]), cut([10, 200, 300]), index(mode=0),
           sort(n=65537, inplace=1)]
    for o in ops:
        for k in range(1, 7 if th else 5):
            out.append(dict(cpus=2, bound=1, ops=[o, ADD, O('count', 2)], failalloc=k))
    # reductions: no memory for the results of the chunks
    for o in (L('add', 'dd->d', 16384 * 130 + 5, 'reduce'), L('maximum', 'hh->h', 16384 * 130 + 5, 'reduce')):
        out += [dict(cpus=2, bound=1, ops=[o, ADD, O('count', 2)], failalloc=1), dict(cpus=3, bound=0, ops=[o, ADD], failalloc=1)]
    for o in (L('maximum', 'dd->d', 16384 * 130 + 5, 'reduce'), L('add', 'gg->g', 16384 * 65 + 5, 'reduce')):
        out.append(dict(cpus=2, bound=1, ops=[o, ADD, O('count', 2)], failalloc=1, atop=False))
    return [dict(s, race=0) for s in out]


SCEN = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09}


def p35(th):
    n = 65536
    out = []
    div, fdiv = ['divide', 'ff->f'], ['floor_divide', 'dd->d']
    for z in ([0], [20000], [n - 1], [], [0, n - 1]):
        out.append({'cpus': 3, 'bound': 3 if th else 2, 'ops': [{'loop': div, 'n': n, 'zeros': z}]})
        if th or z in ([n - 1], []):
            out.append({'cpus': 2, 'bound': 99, 'ops': [{'loop': div, 'n': n, 'zeros': z}]})
    out.append({'cpus': 2, 'bound': 3, 'ops': [{'loop': fdiv, 'n': n, 'zeros': [30000]}]})
    # nothing of an operation is reported by the next one, or by one of another thread
    out.append({'cpus': 2, 'bound': 4 if th else 2, 'ops': [{'loop': div, 'n': n, 'zeros': [n - 1]}, {'loop': div, 'n': n, 'zeros': []}]})
    out.append({'cpus': 2, 'bound': 3 if th else 2, 'nmain': 2, 'ops': [{'loop': div, 'n': n, 'zeros': [5]}, {'loop': div, 'n': n, 'zeros': [], 'fiber': 1}]})
    return out


SCEN['P35'] = p35


def name(sc):
    ops = []
    for o in sc['ops']:
        n = o['loop'][0] + ' ' + o['loop'][1] + ' ' + o.get('form', 'new') if 'loop' in o else o['op']
        ops.append('%s(%s)%s' % (n, ','.join(str(v) for k, v in o.items() if k not in ('loop', 'op', 'form', 'fiber', 'ref')), '@%d' % o['fiber'] if o.get('fiber') else ''))
    return '; '.join(ops) + ' | ' + ' '.join('%s=%s' % (k, v) for k, v in sc.items() if k not in ('ops', 'cost', 'seconds', 'max_exec'))


def bad(r):
    """what is wrong, or '' """
    if r.get('skipped'):
        return ''
    if r.get('error'):
        return r['error']
    if r['kind']:
        return r['what']
    return ''


def explore(ck, pid):
    """all the scenarios of the property; the confirmed violations are added to the check"""
    D = pnbuild.stage('mc')
    th = ck.tier == 'thorough'
    scs = SCEN[pid](th)
    for s in scs:
        s.setdefault('cost', s['bound'] * s.get('cpus', 2) * len(s['ops']))
        s['seconds'] = 1500 if th else 150
    limit = 4000 if th else 400
    res, todo = [], scs
    while todo:
        # the first scenario that goes wrong ends the exploration of the others, and is run again in a fresh process
        part = mcrun.run(D, todo, timeout=limit, stop=bad)
        res = [r for r in res if r.get('skipped') != 'stopped'] + part
        for r in part:
            b = bad(r)
            if not b or len(ck.viol) >= 8:
                continue
            again = [r]
            for k in range(2):
                again = mcrun.run(D, [r['sc']], timeout=limit)
                if bad(again[0]):
                    break
            if not bad(again[0]):
                ck.notes.append('not repeated: %s: %s' % (name(r['sc']), b))
                continue
            ck.violation(name(r['sc']), '%s: %s %s after %s preemptions at most (schedule of %s choices)' % (
                name(r['sc']), b, r.get('detail'), r['sc']['bound'], len(r.get('sched', []))), dict(sc=r['sc'], result={k: v for k, v in r.items() if k != 'sc'}))
        if ck.viol:
            break
        todo = [r['sc'] for r in part if r.get('skipped') == 'stopped']
    return scs, res


def main(pid):
    ck = Check(pid, 'model_checking')
    scs, res = explore(ck, pid)
    ok = [r for r in res if 'states' in r]
    tot = lambda f: sum(r.get(f, 0) for r in ok)
    if not ok:
        ck.violation('nothing', 'no scenario could be explored: %s' % [bad(r) or r.get('skipped') for r in res[:3]], {})
    ck.cov = {
        'states': tot('states'), 'transitions': tot('steps'), 'traces_validated_against_impl': tot('executions'),
        'scenarios': len(scs), 'scenarios_complete': sum(1 for r in ok if not r['capped'] and not r['kind']),
        'scenarios_capped': [name(r['sc']) for r in ok if r['capped']], 'scenarios_skipped': sorted({r['skipped'] for r in res if r.get('skipped')}),
        'schedules_with_different_history': tot('outcomes'), 'preemption_bounds': sorted({s['bound'] for s in scs}),
        'worker_threads': sorted({s.get('cpus', 2) for s in scs}), 'shared_words_max': max([r['active'] for r in ok] or [0]),
        'exhaustive': all(not r['capped'] for r in ok),
        'explanation': 'states: distinct (memory, fiber histories, waiting queues) at choices with more than one runnable thread; transitions: scheduling points executed; '
                       'traces_validated_against_impl: executions, each of them of the real compiled code under the controlled scheduler (no model). '
                       'bound 99 is unbounded for these histories.',
        'samples': [dict(scenario=name(r['sc']), executions=r['executions'], states=r['states'], shared_words=r['active'], longest=r['maxdepth'])
                    for r in ok[:3] + ok[-2:]],
    }
    ck.assumptions = ['sequentially consistent memory (x86 store buffering is not explored)', 'futex wakes waiters in their order of arrival, without spurious wakeups',
                      'at most the stated number of preemptions; blocking, pausing and ending a thread are free switches',
                      'element data between two accesses of shared control words is one step']
    return ck.finish()


def replay(r):
    D = pnbuild.stage('mc')
    sc = r['replay']['sc']
    rr = mcrun.run(D, [sc], timeout=4000)[0]
    print(name(sc))
    print(bad(rr) or 'no violation', rr.get('detail'), rr.get('sched'))
    return 1 if bad(rr) else 0
