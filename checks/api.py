"""P20..: public functions compared with numpy alone (see lib/apidiff.py)."""
import importlib, time
import apidiff, pnbuild
from checklib import Check

SUITE = {'P18': ('api_forms', {}), 'P20': ('api_sort', dict(what='sort')), 'P21': ('api_sort', dict(what='argsort')), 'P22': ('api_lex', {}), 'P24': ('api_index', {}), 'P25': ('api_fancy', dict(what='fancy')), 'P26': ('api_rec', {}),
         'P27': ('api_misc', dict(what='argm')), 'P28': ('api_misc', dict(what='arange')),
         'P30': ('api_settings', dict(what='P30')), 'P31': ('api_settings', dict(what='P31')), 'P32': ('api_settings', dict(what='P32')), 'P33': ('api_trap', {})}
LEVEL = {'P31': 'model_checking'}


def main(pid):
    ck = Check(pid, LEVEL.get(pid, 'exploration'))
    D = pnbuild.stage('real')
    th = ck.tier == 'thorough'
    suite, extra = SUITE[pid]
    m = importlib.import_module(suite)
    groups = m.groups(ck.tier, extra['what']) if m.groups.__code__.co_argcount > 1 else m.groups(ck.tier)
    gs = [dict(g, tier=ck.tier, **extra) for g in groups]
    res = apidiff.run(suite, D, gs, nproc=6, timeout=120 if th else 60)
    for r in res:
        if not r['bad']:
            continue
        # alone, in fresh processes
        rr = apidiff.run(suite, D, [r['g']], nproc=1, timeout=120)[0]
        for n, label, what in (rr['bad'] or [(b[0], b[1], b[2] + ' (did not repeat)') for b in r['bad']]):
            ck.violation(label or str(r['g']), '%s: %s' % (label, what[:1500]), dict(suite=suite, g=r['g'], case=n))
        if len(ck.viol) >= 12:
            break
    ck.cov = {'evaluations': sum(r['cases'] for r in res), 'distinct_nontrivial': sum(r.get('distinct', 0) for r in res), 'groups': len(gs), 'exhaustive': True,
              'rule': m.RULE[pid] + ' One evaluation is one call, executed with the package and with numpy alone, results compared byte by byte '
                      '(unstable sorts: up to the order of equal elements); distinct reference results are counted as distinct.',
              'samples': [dict(group=r['g'], cases=r['cases']) for r in res[:3] + res[-1:]]}
    if hasattr(m, 'COUNT') and pid in m.COUNT:
        ck.cov.update(m.COUNT[pid](ck.cov['evaluations']))
    return ck.finish()


def replay(r):
    x = r['replay']
    D = pnbuild.stage('real')
    rr = apidiff.run(x['suite'], D, [x['g']], nproc=1, timeout=120)[0]
    for b in rr['bad']:
        print(b[1], b[2])
    return 1 if rr['bad'] else 0
