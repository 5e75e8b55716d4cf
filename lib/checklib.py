"""Common shell of every check: evidence, known findings, violations, exit status."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


def known(pid):
    """lines "known: property=<id> key=<key> <what fails>" of known-findings.txt ("fixed: ..." lines suppress nothing)"""
    out = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='):
            out.append({'key': w[2][4:], 'what': w[3].strip()})
    return out


class Check:
    """collects what one run of one property's check covered and found"""

    def __init__(self, pid, level, tier=None):
        self.pid, self.level = pid, level
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.viol = []          # (key, description, replay dict)
        self.notes = []

    def violation(self, key, what, replay):
        """key identifies the failing input/history (what a known finding is matched on)"""
        self.viol.append((key, what, replay))

    def finish(self):
        kn = {k['key']: k for k in known(self.pid)}
        new, old = [], {}
        for key, what, rep in self.viol:
            if key in kn:
                old[key] = what
            else:
                new.append((key, what, rep))
        for key, k in kn.items():
            if key in old:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                print('note: listed finding %s did not show on this tree' % key)
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        for f in os.listdir(os.path.join(EVID, 'replays')):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(EVID, 'replays', f))
        for i, (key, what, rep) in enumerate(new[:20]):
            path = os.path.join(EVID, 'replays', '%s-%d.json' % (self.pid, i))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'what': what, 'replay': rep}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + what)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for n in self.notes:
            print(n)
        brief = {k: v for k, v in self.cov.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}
        print('%s %s: %d violation(s), %s, %.1f s' % (self.pid, self.tier, len(new), brief, time.time() - self.t0))
        return 1 if new else 0
