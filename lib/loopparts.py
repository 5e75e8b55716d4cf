"""The finite case spaces for one inner loop (see loopdiff.py)."""
import numpy as np
from pools import SIZE, alphabet, every, pairs

BITS, FLOAT, ULP, FZERO, NONE = 0, 1, 2, 3, 4

ARITH = ['add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or',
         'bitwise_xor', 'logical_and', 'logical_or', 'left_shift', 'right_shift']
COMPARE = ['equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal']
UNARY = ['abs', 'absolute', 'negative', 'sign', 'signbit', 'rint', 'floor', 'ceil', 'trunc', 'sqrt', 'invert', 'bitwise_not', 'logical_not',
         'isnan', 'isinf', 'isfinite']
TRIG = ['sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh',
        'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'cbrt']


def mode(u, sig):
    if sig[-1] not in 'fd':
        return (BITS, 0.0, 0.0)
    if u in TRIG:
        return (ULP, 4.0, 0.0)
    return (FLOAT, 0.0, 0.0)


def scramble(a, m):
    """deterministic reordering of a pool so that neighbours differ"""
    n = len(a)
    step = m
    from math import gcd
    while gcd(step, n) != 1:
        step += 1
    return a[(np.arange(n) * step) % n]


S4 = (1, 0, 2, -1)
PATS2 = [(a, b, c) for a in S4 for b in S4 for c in (1, 2, -1)]
PATS1 = [(a, 0, c) for a in (1, 2, 3, -1, -2, 0) for c in (1, 2, 3, -1)]


def specs(u, sig, nin, part, tier):
    """yield (pool1, pool2, lens, strides (in elements), placements (in elements), phases, alias, mode)"""
    if part == 'bounds':
        md, part = (NONE, 0.0, 0.0), 'geometry'
    else:
        md = mode(u, sig)
    thorough = tier == 'thorough'
    s1 = SIZE[sig[0]]
    if nin == 2:
        a, b = alphabet(sig[0]), alphabet(sig[1])
        if 'shift' in u:
            # a shift by a negative amount or by the width or more is undefined in C for some widths; numpy defines it
            pass
        p1, p2 = pairs(a, b)
        m1, m2 = scramble(p1, 37), scramble(p2, 37)
        if part == 'values':
            if s1 == 1 and sig[0] != '?':
                e1, e2 = pairs(every(sig[0]), every(sig[1]))
                yield e1, e2, [65535], [(1, 1, 1)], [(0, 0, 0)], [0, 1], 0, md
            k = len(p1)
            yield p1, p2, [k], [(1, 1, 1), (2, 1, 1), (1, 1, 2), (-1, 1, 1), (1, 1, -1)], [(0, 0, 0)], [0, 1, 2, 3, 5, 7], 0, md
            ea, eb = (every(sig[0]), every(sig[1])) if s1 == 1 else (a, b)
            # one operand is a scalar: its value is the one at the phase
            yield ea, eb, [len(eb) + 3], [(0, 1, 1), (0, 2, 1), (0, 1, 2)], [(0, 0, 0)], list(range(len(ea))), 0, md
            yield ea, eb, [len(ea) + 3], [(1, 0, 1), (2, 0, 1), (1, 0, 2)], [(0, 0, 0)], list(range(len(eb))), 0, md
        elif part == 'geometry':
            L = list(range(0, 260 if thorough else 131))
            yield m1, m2, L, PATS2, [(0, 0, 0), (1, 2, 3)], [0, 331] if thorough else [0], 0, md
            al = [0, 1, 3, -1, -2] if not thorough else [0, 1, 2, 3, 5, -1, -2, -4]
            yield m1, m2, L if thorough else L[:100], [(1, 1, 1)], [(x, y, z) for x in al for y in al for z in al], [5], 0, md
            yield m1, m2, L, [(0, 1, 1), (1, 0, 1)], [(x, y, z) for x in (0, 1, -2) for y in (0, 1, -2) for z in (0, 1, -1)], [5, 12], 0, md
        elif part == 'alias':
            L = list(range(0, 200 if thorough else 100))
            same_o = SIZE[sig[-1]]
            if SIZE[sig[0]] == same_o:
                yield m1, m2, L, [(1, 1, 1), (1, 0, 1), (2, 1, 2), (-1, 1, -1), (2, 0, 2)], [(0, 0, 0), (1, 0, 1), (0, 1, 0)], [0, 7], 1, md
                yield m1, m2, L, [(1, 1, 1), (0, 1, 1), (1, 2, 2), (1, -1, -1), (0, 2, 2)], [(0, 0, 0), (1, 0, 1), (0, 1, 0)], [0, 7], 2, md
                yield m1, m2, L, [(1, 1, 1), (2, 2, 2)], [(0, 0, 0), (1, 1, 1)], [0, 7], 4, md
                if sig[0] == sig[1] == sig[-1]:
                    # accumulate: out[i] = in1 of step i+1 (cumulative operations and in-place overlaps)
                    yield m1, m2, L + [4000], [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 0, 1), (-1, 1, -1)], [(0, 0, 0), (0, 1, 0)], [0, 7], 5, md
            yield m1, m1, L, [(1, 1, 1), (2, 2, 1)], [(0, 0, 0), (1, 1, 0)], [0, 7], 3, md
        elif part == 'large':
            B = 16384
            lens = [65535, 65536, 65537, 65536 + 31, 5 * B - 1, 5 * B, 5 * B + 1, 5 * B + 7, 8 * B + 33, 9 * B - 8]
            if thorough:
                lens += [6 * B + k for k in range(-40, 41)]
            yield m1, m2, lens, [(1, 1, 1), (0, 1, 1), (1, 0, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)], \
                [(0, 0, 0), (1, 2, 3)], [0], 0, md
            if SIZE[sig[0]] == SIZE[sig[-1]]:
                yield m1, m2, [65536 + 5, 5 * B + 1], [(1, 1, 1), (1, 0, 1), (2, 1, 2)], [(0, 0, 0), (1, 0, 1)], [0], 1, md
                yield m1, m2, [65536 + 5, 5 * B + 1], [(1, 1, 1), (0, 1, 1), (1, 2, 2)], [(0, 0, 0), (1, 0, 1)], [0], 2, md
                if sig[0] == sig[1] == sig[-1]:
                    yield m1, m2, [65536 + 5, 5 * B + 1], [(1, 1, 1), (1, 2, 1), (2, 1, 2)], [(0, 0, 0), (0, 1, 0)], [0], 5, md
    else:
        e = every(sig[0])
        a = alphabet(sig[0])
        m = scramble(a, 7)
        if part == 'values':
            k = len(e)
            pats = [(1, 0, 1), (2, 0, 1), (1, 0, 2), (-1, 0, 1), (1, 0, -1)]
            yield e, None, [min(k, 65535)], pats, [(0, 0, 0)], [0, 1], 0, md
            yield a, None, [len(a) * 3], pats, [(0, 0, 0)], list(range(0, 40)), 0, md
            if u in TRIG or u in UNARY and sig[0] in 'fd':
                g = grid(sig[0])
                yield g, None, [len(g)], [(1, 0, 1), (2, 0, 1)], [(0, 0, 0)], [0, 3], 0, md
        elif part == 'geometry':
            L = list(range(0, 300 if thorough else 140))
            al = [0, 1, 2, 3, 5, 7, -1, -2, -3]
            yield m, None, L, PATS1, [(0, 0, 0), (1, 0, 3)], [0, 5], 0, md
            yield m, None, L, [(1, 0, 1)], [(x, 0, y) for x in al for y in al], [0], 0, md
        elif part == 'alias':
            L = list(range(0, 200 if thorough else 100))
            if SIZE[sig[0]] == SIZE[sig[-1]]:
                yield m, None, L, [(1, 0, 1), (2, 0, 2), (-1, 0, -1)], [(0, 0, 0), (1, 0, 1), (3, 0, 3)], [0, 7, 11], 1, md
        elif part == 'large':
            B = 16384
            lens = [65535, 65536, 65537, 65536 + 31, 5 * B - 1, 5 * B, 5 * B + 1, 5 * B + 7, 8 * B + 33, 9 * B - 8]
            if thorough:
                lens += [6 * B + k for k in range(-40, 41)]
            yield m, None, lens, [(1, 0, 1), (2, 0, 1), (1, 0, 2), (-1, 0, 1), (1, 0, -1)], [(0, 0, 0), (1, 0, 3)], [0], 0, md
            if SIZE[sig[0]] == SIZE[sig[-1]]:
                yield m, None, [65536 + 5, 5 * B + 1], [(1, 0, 1), (2, 0, 2)], [(0, 0, 0), (1, 0, 1)], [0], 1, md


def grid(ch):
    """a regular grid of magnitudes, both signs"""
    if ch == 'f':
        e = np.arange(0x00000000, 0x7f800000, 0x00010000 - 77, dtype=np.int64).astype('u4')
        v = e.view('f4')
    else:
        e = (np.arange(0, 0x7ff00000, 0x10000 - 77, dtype=np.int64) << 32 | 0x9e3779b9).astype('u8')
        v = e.view('f8')
    return np.concatenate([v, -v])


def reducible(sig):
    return len(sig) == 3 and sig[0] == sig[1] == sig[2]


def reduces(u, sig, part, tier):
    """yield (pool, seeds, lens, strides in bytes, placements in bytes, phases, mode) for out = out OP in[0] OP in[1] ..."""
    if not reducible(sig):
        return
    ch = sig[0]
    sz = SIZE[ch]
    thorough = tier == 'thorough'
    if part == 'reduce':
        L = list(range(1, 260 if thorough else 140))
        strides = [sz, 0, 2 * sz, -sz, 3 * sz]
        offs = [0, sz, 2 * sz, 3 * sz, 7 * sz, -1, -sz - 1, -3 * sz - 1]
    else:
        B = 16384
        L = [65536, 65537, 65535, 5 * B - 1, 5 * B + 1, 5 * B + 70, 9 * B - 8]
        strides = [sz, 0, 2 * sz, -sz]
        offs = [0, -sz - 1]
    if ch in 'fd':
        ints = np.array([1, 2, -3, 5, 0, 7, -2, 4, 11, -6, 3, -1, 8], dtype=ch)
        dy = np.array([0.5, 2, -1, 4, -0.25, 1, 8, -0.125], dtype=ch)
        if u in ('add', 'subtract'):
            yield ints, ints[:2], L, strides, offs, [0, 3, 8], 0            # exact in any order
        if u == 'add':
            g = np.array([0.1, 1e6, -3.25e-5, 7.7, -1e3, 2.5, 1e-3, 0.3, -0.7, 12345.678, 1 / 3.], dtype=ch)
            yield g, g[:2], L, strides, offs, [0, 4], 2
            for sp in (np.nan, np.inf, -np.inf):
                for pos in ([0, 1, 7, 8, 15, 16, 17, 31, 33, 47] if part == 'reduce' else [0]):
                    h = np.array([0.5] * 61, dtype=ch)
                    h[pos] = sp
                    yield h, h[5:6], L[::5], [sz, 2 * sz], [0], [0], 2
            h = np.array([np.inf] + [1.] * 20 + [-np.inf], dtype=ch)
            yield h, h[3:4], L, [sz, 2 * sz], [0], [0, 9], 2
        elif u == 'multiply':
            if part == 'reduce':
                yield dy, dy[:2], L[:100], strides, offs, [0, 3], 0
                g = np.array([0.1, 10, -3.25, 0.3076923, 1.5, 2 / 3., -1.1, 0.9090909], dtype=ch)
                yield g, g[:2], L, [x for x in strides if x], offs, [0, 4], 3
            else:
                g = np.array([1 + 2.0**-9, 1 / (1 + 2.0**-9), -1, 1, 1.25, 0.8, -1], dtype=ch)
                yield g, g[:1], L, [x for x in strides if x], offs, [0, 1], 3
            for sp in (np.nan, np.inf, 0.0):
                h = np.array([-1.0] * 61, dtype=ch)
                h[17] = sp
                yield h, h[5:6], L[::5] + [L[-1]], [sz, 2 * sz], [0], [0, 9], 3
        elif u in ('minimum', 'maximum'):
            m = scramble(alphabet(ch), 7)
            m = m[~np.isnan(m)]
            small = m[np.abs(m) < 100]
            yield m, m[:3], L, strides, offs, [0, 5, 11], 4
            big = np.arange(61, dtype=ch)
            for pos in range(0, 61, 1 if part == 'reduce' else 10):
                h = np.full(61, 2, dtype=ch)
                h[pos] = 1 if u == 'minimum' else 3
                yield h, h[(pos + 1) % 61:][:1] if pos < 60 else h[:1], L[::3], [sz, 2 * sz], [0], [0], 4
                h[pos] = np.nan
                yield h, np.array([2.], dtype=ch), L[::3], [sz, 2 * sz], [0], [0], 4
        else:
            yield ints, ints[:2], L[:60] if part == 'reduce' else L[:3], strides, offs[:3], [0, 3], 0
    else:
        m = scramble(alphabet(ch), 7)
        yield m, m[:3], L, strides, offs, [0, 5, 11], 0 if ch != 'g' else 1
        if ch == '?':
            for base in (0, 1):
                for pos in list(range(0, 70, 1 if part == 'reduce' else 23)):
                    h = np.full(131, base, dtype='?')
                    h[pos] = not base
                    yield h, np.array([0, 1], dtype='?'), L[::4], [1, 2], [0, 5], [0], 0
        else:
            two = np.array([1, 3, 2, 1], dtype=ch)
            yield two, two[:2], L, strides, offs[:2], [0, 1], 0
            if u in ('minimum', 'maximum', 'add'):
                for pos in list(range(0, 70, 1 if part == 'reduce' else 23)):
                    h = np.full(131, 5, dtype=ch)
                    h[pos] = 4 if u == 'minimum' else 6
                    yield h, np.array([5], dtype=ch), L[::4], [sz, 2 * sz], [0, sz], [0], 0


FLAGBASE = {'arccosh': 1.5}


def flagspecs(u, sig, nin, part, tier):
    """yield (base1, base2, pool1, pool2, lens, strides in bytes, positions, reduce) for nd.flags"""
    thorough = tier == 'thorough'

    def special(ch):
        if ch in 'fd':
            fi = np.finfo(ch)
            v = [0.0, -0.0, 1, -1, 2.5, -7, 0.5, np.inf, -np.inf, np.nan, fi.max, fi.min, fi.tiny, fi.smallest_subnormal, 1e30, -1e30, 90.0, -110.0, 20000.0]
        elif ch == '?':
            v = [0, 1]
        else:
            ii = np.iinfo(ch)
            v = sorted({0, 1, 7, ii.min, ii.max, ii.max - 1} | ({-1, -2} if ii.min else set()))
        return np.array(v, dtype=ch)

    sz = [SIZE[c] for c in sig] + [1]
    base = FLAGBASE.get(u, 0.5 if nin == 1 else 1)
    bs = [np.array([base if c in 'fd' else 1], dtype=c) for c in sig[:nin]] * 2
    a = special(sig[0])
    if nin == 2:
        p1, p2 = pairs(a, special(sig[1]))
    else:
        p1, p2 = a, a
    if part == 'flags':
        lens = [k for k in range(1, 36 if nin == 2 else 71)]
        if thorough:
            lens += list(range(71, 140))
        pos = [-1] * len(lens)
        pats = [(1, 1, 1), (2, 1, 1), (1, 1, 2), (-1, 1, 1)] if nin == 2 else [(1, 0, 1), (2, 0, 1), (1, 0, 2), (-1, 0, 1)]
        pats = [(x * sz[0], y * sz[1], z * sz[nin]) for x, y, z in pats]
        short = [k for k in lens if k in (1, 2, 3, 5, 8, 9, 16, 17, 31, 33, 40, 64, 65, 130)]
        yield bs[0], bs[1], p1, p2, lens, pats[:1], pos, 0
        yield bs[0], bs[1], p1, p2, short, pats[1:], [-1] * len(short), 0
        if nin == 2:
            yield bs[0], bs[1], p1, p2, short, [(0, sz[1], sz[2]), (sz[0], 0, sz[2])], [3] * len(short), 0
    else:
        B = 16384
        lens = [65536 + 5, 5 * B + 1] if not thorough else [65535, 65536, 65536 + 5, 5 * B - 1, 5 * B + 1, 8 * B + 33]
        if nin == 2 and not thorough:
            keep = [j for j in range(len(p1)) if j % 7 == 3] if len(p1) > 60 else range(len(p1))
            want = [(0, 0), (1, 0), (-1, 0)] + ([(np.inf, np.inf), (np.inf, 0), (-np.inf, np.inf), (np.nan, 1), (1, np.nan), (np.finfo(sig[0]).max, np.finfo(sig[1]).max)]
                                                 if sig[0] in 'fd' and sig[1] in 'fd' else [])
            keep = sorted(set(keep) | {j for j in range(len(p1)) for w in want if str((float(p1[j]), float(p2[j]))) == str((float(w[0]), float(w[1])))})
            p1, p2 = p1[keep], p2[keep]
        pats = [(sz[0], sz[1] if nin == 2 else 0, sz[nin])]
        yield bs[0], bs[1], p1, p2, lens, pats, [6] * len(lens), 0
    if nin == 2 and reducible(sig) and u in ('add', 'multiply', 'minimum', 'maximum') and sig[0] in 'fd':
        mx = np.finfo(sig[0]).max
        pr = {'add': [(np.inf, -np.inf), (mx, mx), (-mx, -mx), (np.nan, 1), (1, np.nan), (np.inf, 1), (1, 1)],
              'multiply': [(np.inf, 0), (0, np.inf), (mx, mx), (np.nan, 0), (0, 1), (np.inf, 2)]}.get(u, [(np.nan, 1), (np.inf, 1), (1, -np.inf), (np.nan, np.inf)])
        q1, q2 = [np.array([x[i] for x in pr], dtype=sig[0]) for i in (0, 1)]
        one = np.array([1], dtype=sig[0])
        if part == 'flags':
            L = list(range(2, 140))
            yield one, one, q1, q2, L, [(0, k * sz[0], 0) for k in (1, 2, -1)], [-1] * len(L), 1
        else:
            yield one, one, q1, q2, lens, [(0, sz[0], 0)], [6] * len(lens), 1
