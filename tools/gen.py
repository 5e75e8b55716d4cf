"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []       # property lines
CHECKS = {}  # id -> (technique, level, note)
NA = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech]}
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': a})
    if check:
        CHECKS[id] = check
    else:
        NA[id] = 'the check for this property is still being built'


DIFF = 'bounded-exhaustive differential exploration of the real inner loops against the loops numpy had before the hook'
DIFFNOTE = ('Every case of a finite, stated space (values x lengths x strides x placements x aliasing) is executed on the compiled code; '
            'nothing is sampled. Values outside the alphabets and lengths outside the stated ranges are not covered; numpy 1.26.4 is the reference.')
LOOPWHY = ('Quantified over inputs: the existing tests call each function on a few contiguous arrays and mostly check that nothing is '
           'raised; vector bodies, tails, strided, scalar and misaligned variants and special values are separate code paths.')

prop('P10', 'Arithmetic and bitwise results equal numpy for every input',
     'With the package enabled, every element-wise binary arithmetic, bitwise or logical array operation (add, subtract, multiply, divide, floor divide, '
     'minimum, maximum, remainder, power, and/or/xor, shifts, ...) produces exactly the array that numpy alone produces for the same operands, for all '
     'element types, operand values (including wrap-around, infinities, nan, signed zeros), array lengths, strides, alignments and array-with-scalar forms.',
     ['inputs'], 'all operand values, lengths, strides, alignments, scalar operands',
     LOOPWHY, ['src/atop/ops_binary.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('vectorized binary kernels', 'src/atop/ops_binary.cpp: SimpleMathOpFast*, GetSimpleMathOpFast'),
      ('dispatch of a hooked loop', 'src/pnumpy/_pnumpy.cpp: AtopBinaryMathFunction')],
     check=(DIFF, 'exploration', DIFFNOTE))
prop('P11', 'Comparison results equal numpy for every input',
     'With the package enabled, ==, !=, <, <=, > and >= between arrays, or between an array and a scalar, produce exactly the boolean array numpy alone produces, '
     'for all element types, operand values (including nan, infinities, signed zeros and unsigned values above the signed maximum), lengths, strides and alignments. '
     'Every result element is a valid boolean (0 or 1).',
     ['inputs'], 'all operand values, lengths, strides, alignments, scalar operands', LOOPWHY,
     ['src/atop/ops_compare.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('vectorized comparison kernels', 'src/atop/ops_compare.cpp: CompareAny, CompareInt8 ..., GetComparisonOpFast'),
      ('dispatch', 'src/pnumpy/_pnumpy.cpp: AtopCompareMathFunction')],
     check=(DIFF, 'exploration', DIFFNOTE))
prop('P12', 'Unary results equal numpy for every input',
     'With the package enabled, every element-wise unary operation (absolute, negative, sign, sqrt, floor, ceil, trunc, rint, square, invert, logical not, '
     'isnan, isinf, isfinite, signbit, ...) produces exactly the array numpy alone produces, for all element types, values (including the most negative '
     'integer, nan, infinities and signed zeros), lengths, strides and alignments.',
     ['inputs'], 'all operand values, lengths, strides, alignments', LOOPWHY,
     ['src/atop/ops_unary.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('vectorized unary kernels', 'src/atop/ops_unary.cpp: UnaryOpFast*, GetUnaryOpFast'),
      ('dispatch', 'src/pnumpy/_pnumpy.cpp: AtopUnaryMathFunction')],
     check=(DIFF, 'exploration', DIFFNOTE))
prop('P13', 'Trigonometric, exponential and logarithm results agree with numpy',
     'With the package enabled, sin, cos, tan, exp, exp2, log, log2, log10, the hyperbolic, inverse and related functions agree with numpy alone '
     'to within a few units in the last place for every argument, and exactly where the result is nan, an infinity or where the argument is zero or out of domain. '
     'This does not depend on the array length, on the position of the element in the array, or on strides and alignment.',
     ['inputs'], 'all arguments of a boundary and magnitude grid, lengths, strides, alignments', LOOPWHY,
     ['src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp', 'src/atop/avx_mathfun.h', 'src/pnumpy/_pnumpy.cpp'],
     [('vector sin/cos/exp/log', 'src/atop/avx_mathfun.h'), ('kernels', 'src/atop/ops_trig.cpp, src/atop/ops_log.cpp'),
      ('dispatch', 'src/pnumpy/_pnumpy.cpp: AtopTrigMathFunction')],
     check=(DIFF, 'exploration', DIFFNOTE))
prop('P14', 'Reductions equal numpy for every length, value and stride',
     'With the package enabled, sum, prod, min, max, any, all and every other reduction of an array gives the result numpy alone gives: exactly for integers, booleans, '
     'minimum and maximum (nan included), and up to the rounding differences of re-associated summation for floating point sums and products. '
     'This holds for every array length, with and without worker threads, and for strided, reversed or misaligned input.',
     ['inputs', 'configurations'], 'all lengths across the vector, work-item and threading boundaries; positions of a deviating element; strides; alignments', LOOPWHY,
     ['src/atop/ops_binary.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('vectorized reductions', 'src/atop/ops_binary.cpp: ReduceMathOpFast*, GetReduceMathOpFast'),
      ('splitting over threads and combining the chunk results', 'src/pnumpy/_pnumpy.cpp: AtopBinaryMathFunction, ReduceThreadCallback*')],
     check=(DIFF, 'exploration', DIFFNOTE + ' Floating point sums and products are compared with a rounding tolerance.'))
prop('P15', 'In-place, overlapping and accumulating operations equal numpy',
     'With the package enabled, an operation whose output is one of its inputs, whose operands are the same array, or whose output overlaps an input (as in a cumulative '
     'operation) produces exactly what numpy alone produces, with and without worker threads.',
     ['inputs'], 'all aliasing patterns between inputs and output, lengths', LOOPWHY,
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/ops_binary.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_compare.cpp'],
     [('overlap test before vectorizing or threading', 'src/pnumpy/_pnumpy.cpp: HasPartialOverlap'),
      ('kernels reading ahead of what they write', 'src/atop/ops_*.cpp')],
     check=(DIFF, 'exploration', DIFFNOTE))
prop('P16', 'Array operations never touch memory outside their operands',
     'Every element-wise operation reads only bytes that belong to elements of its inputs and writes only bytes that belong to elements of its output, for every array length, '
     'stride, alignment and position within a larger buffer: surrounding memory, gaps between strided output elements and the inputs themselves stay unchanged.',
     ['inputs'], 'all lengths, strides and placements against inaccessible pages', LOOPWHY +
     ' An out-of-bounds access inside a mapped page is invisible to them.',
     ['src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp'],
     [('tail handling of the vector kernels', 'src/atop/ops_*.cpp'), ('strided kernels', 'src/atop/ops_*.cpp')],
     check=(DIFF + ', operands placed against guard pages and canaries', 'exploration', DIFFNOTE))
prop('P17', 'Splitting an operation over worker threads does not change its result',
     'For large arrays, which are split into blocks that worker threads process, the result of every element-wise operation equals the result numpy alone produces: every block, '
     'including a partial last block, is computed exactly once at its own position, for contiguous, strided and scalar operands and any number of workers.',
     ['inputs', 'configurations'], 'lengths around the block and threading thresholds, strides, scalar operands, worker counts',
     'The existing tests use few large arrays and do not compare the values around block boundaries.',
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/threads.h', 'src/atop/threads.cpp'],
     [('block arithmetic', 'src/atop/threads.h: GetNextWorkBlock, WorkMain'), ('per-block callbacks', 'src/pnumpy/_pnumpy.cpp: *ThreadCallback*')],
     check=(DIFF + ' on the real worker pool', 'exploration', DIFFNOTE + ' The schedules are those of the machine; all schedules are the subject of P01-P04.'))

if os.path.exists(os.path.join(V, 'tools', 'gen2.py')):
    exec(open(os.path.join(V, 'tools', 'gen2.py')).read())

P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the schedule checks build the unmodified sources with compiler instrumentation (see DESIGN.md)', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': CHECKS[p['id']][0], 'level': CHECKS[p['id']][1],
                 'level_note': CHECKS[p['id']][2]} for p in P if p['id'] in CHECKS],
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'Every check stages a copy of /repo\'s working tree under /verif/.cache (git-ignored), compiles it there and explores it; /repo is only read.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    print('no jsonschema')
print(len(P), 'properties', len(CHECKS), 'checks')
