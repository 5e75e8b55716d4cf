"""P10-P17: exhaustive differential exploration of the inner loops (see lib/loopdiff.py)."""
import loopdiff, loopparts, pnbuild
from checklib import Check

FAMILY = {'P10': loopparts.ARITH, 'P11': loopparts.COMPARE, 'P12': loopparts.UNARY, 'P13': loopparts.TRIG}
PARTS = {'P10': ['values', 'geometry'], 'P11': ['values', 'geometry'], 'P12': ['values', 'geometry'], 'P13': ['values', 'geometry'],
         'P14': ['reduce', 'reducelarge'], 'P15': ['alias'], 'P16': ['bounds'], 'P17': ['large'], 'P35': ['flags', 'flagslarge']}
RULE = {
    'values': 'every ordered pair of the boundary alphabet of the two operand types (one byte types: all 65,536 pairs), per loop, vector and scalar operand forms',
    'geometry': 'every array length 0..130 times every (stride1, stride2, stride out) pattern times every placement of the operands relative to 32 byte lanes and guard pages',
    'alias': 'every length 0..99 with the output being operand 1, operand 2 or both, both inputs the same, and the output one step ahead of an input (accumulate)',
    'reduce': 'every length 1..139 times (input stride, placement, rotation of the values), every position of a single deviating element, nan or infinity, per loop whose operand and result types agree',
    'reducelarge': 'the same around the 16,384 and 65,536 element boundaries on the real worker pool',
    'bounds': 'every length 0..130 times strides times placements against inaccessible guard pages and canary bytes, at both ends of the pages',
    'flags': 'every length 1..70 (two operands: 1..35) times every position of one special element (every pair of special values for two operands) times stride patterns, '
             'with no and with all errors raised before; reductions: every length 2..139 times every pair of mirrored positions of two special elements',
    'flagslarge': 'the same special elements at 6 positions of arrays that are split over the worker threads',
    'large': 'lengths around the 16,384 element work-item and 65,536 element threading boundaries, with and without tails, strides and scalars, run on the real worker pool',
}


LARGE = ('large', 'reducelarge', 'flagslarge')


def skip(u):
    return u in ('abs', 'divide', 'bitwise_not')   # the same ufunc objects as absolute, true_divide and invert


def main(pid):
    ck = Check(pid, 'exploration')
    D = pnbuild.stage('real')
    tab, err = loopdiff.table(D)
    if tab is None:
        ck.cov = dict(evaluations=1, distinct_nontrivial=1, rule='import', samples=[str(err)])
        ck.violation('import', 'importing the package and listing the installed loops failed: %s' % err, err)
        return ck.finish()
    fam = FAMILY.get(pid)
    jobs = []
    for u, t, nin in tab:
        if skip(u) or (fam is not None and u not in fam):
            continue
        for p in PARTS[pid]:
            if p.startswith('reduce') and not loopparts.reducible(t):
                continue
            job = {'u': u, 't': t, 'part': p, 'tier': ck.tier, 'cfg': {'threads': p in LARGE, 'workers': 4}}
            jobs.append(job)
            if p in LARGE and ck.tier == 'thorough':
                for w in (1, 2, 6):
                    jobs.append(dict(job, cfg={'threads': True, 'workers': w}))
                jobs.append(dict(job, cfg={'threads': True, 'workers': 4, 'zigzag': False}))
    res = loopdiff.run(D, jobs, job_timeout=120 if ck.tier == 'quick' else 1200)
    bad = [r for r in res if r['res']]
    # replay before report: alone, in a fresh process
    for r in bad[:12]:
        rr = loopdiff.run(D, [r['job']], nproc=1, job_timeout=600)[0]
        if not rr['res'] and r['job']['part'] not in LARGE:
            raise RuntimeError('not reproducible: %r' % (r,))
        ck.violation('%s/%s/%s' % (r['job']['u'], r['job']['t'], r['job']['part']),
                     '%s %s (%s): %s' % (r['job']['u'], r['job']['t'], r['job']['part'], r['res']), r)
    ck.cov = {
        'evaluations': sum(r['evals'] for r in res), 'distinct_nontrivial': sum(r['nontrivial'] for r in res),
        'loops': len({(j['u'], j['t']) for j in jobs}), 'exhaustive': True,
        'rule': '; '.join(RULE[p] for p in PARTS[pid]) + '. One evaluation is one call of an installed inner loop compared with the loop numpy '
                'had before (same compiled machine code numpy ships), element by element, plus the bytes around the output and the inputs; '
                'a call on at least one element is non-trivial; the cases are generated without repetition.',
        'samples': [dict(job=j) for j in jobs[:3]],
    }
    ck.assumptions = ['values outside the boundary alphabets are not enumerated (for one byte types all values are)',
                      'the installed numpy 1.26.4 loops evaluated on contiguous copies are the reference']
    if pid == 'P35' and not ck.viol:
        import sched
        scs, res = sched.explore(ck, pid)
        ok = [r for r in res if 'states' in r]
        ck.cov.update(states=sum(r['states'] for r in ok), transitions=sum(r['steps'] for r in ok), schedules_executed=sum(r['executions'] for r in ok),
                      scenarios=len(scs), scenarios_capped=[sched.name(r['sc']) for r in ok if r['capped']])
        if not ok:
            ck.violation('nothing', 'no schedule could be explored: %s' % [sched.bad(r) or r.get('skipped') for r in res[:2]], {})
    if not jobs:
        ck.violation('nothing', 'no inner loop of this family is installed', {})
    return ck.finish()


def replay(r):
    if 'sc' in r['replay']:
        import sched
        return sched.replay(r)
    D = pnbuild.stage('real')
    rr = loopdiff.run(D, [r['replay']['job']], nproc=1, job_timeout=900)[0]
    print(rr['res'] or 'no difference')
    return 1 if rr['res'] else 0
