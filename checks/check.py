"""check.py <property id> [quick|thorough]   run one property's check
   check.py replay <file>                     run the replay recorded for a violation"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]

MODULE = {'P10': 'loops', 'P11': 'loops', 'P12': 'loops', 'P13': 'loops', 'P14': 'loops', 'P15': 'loops', 'P16': 'loops', 'P17': 'loops',
          **{'P0%d' % i: 'sched' for i in range(1, 10)},
          **{'P%d' % i: 'api' for i in range(20, 50)}, 'P35': 'loops', 'P18': 'api'}

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == 'replay':
        import json
        r = json.load(open(sys.argv[2]))
        m = __import__(MODULE[r['property']])
        sys.exit(m.replay(r))
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    sys.exit(__import__(MODULE[pid]).main(pid))
