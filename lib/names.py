"""The functions and types the package hooks (the same list in both processes)."""
TYPES = '?bBhHiIlLqQfd'
INT = 'bBhHiIlLqQ'
FLT = 'fd'
HOOKED = {}
for _n in ('add', 'multiply', 'minimum', 'maximum', 'equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal', 'abs', 'logical_not', 'isinf', 'isnan', 'isfinite'):
    HOOKED[_n] = TYPES
for _n in ('subtract', 'negative'):
    HOOKED[_n] = INT + FLT
for _n in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'bitwise_not'):
    HOOKED[_n] = '?' + INT
for _n in ('left_shift', 'right_shift'):
    HOOKED[_n] = INT
for _n in ('logical_and', 'logical_or'):
    HOOKED[_n] = '?'
HOOKED['sign'] = 'bhilqfd'
for _n in ('true_divide floor_divide signbit floor ceil trunc rint sqrt sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh cbrt exp exp2 expm1 log log2 log10 log1p').split():
    HOOKED[_n] = FLT


def hooked(np):
    for n, t in sorted(HOOKED.items()):
        for c in t:
            yield n, c
