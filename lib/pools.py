"""Value alphabets and geometry of the exhaustive input spaces (plain data, no randomness)."""
import numpy as np
import struct

TYPECH = '?bBhHiIlLqQfdgFDGOSUVMme'
SIZE = {'?': 1, 'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8, 'f': 4, 'd': 8}


def ints(ch):
    n = SIZE[ch] * 8
    if ch.isupper():
        base = [0, 1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 2**15 - 1, 2**15, 2**16 - 1, 2**16, 2**31 - 1, 2**31,
                2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1, 0x0123456789abcdef, 0xdeadbeef]
        v = sorted({b & (2**n - 1) for b in base})
    else:
        base = [0, 1, -1, 2, -2, 3, 5, -7, 31, 32, 63, 64, 100, 127, 128, -128, -129, 255, 256, 2**15 - 1, -2**15, 2**15, 2**31 - 1, -2**31,
                2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, -2**63 + 1, 0x0123456789abcdef, -0x21524111]
        v = set()
        for b in base:
            b &= 2**n - 1
            v.add(b - 2**n if b >> (n - 1) else b)
        v = sorted(v)
    return np.array(v, dtype=ch)


F32 = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.0, -3.0, 0.1, -0.1, 0.3, 7.0, -7.0, 1e-3, 100.25, -100.75,
       8388607.5, -8388607.5, 8388608.0, 16777217.0, 2147483648.0, -2147483648.0, 4294967296.0, 1e10, -1e10, 1e20, -1e20]
F32S = [0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x3f7fffff, 0x3f800001]
F64 = F32 + [1e100, -1e100, 4503599627370495.5, -4503599627370495.5, 4503599627370496.0, 9007199254740993.0, 9.3e18, -9.3e18, 1e-300]
F64S = [1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x7ff0000000000000,
        0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x3fefffffffffffff, 0x3ff0000000000001]


def floats(ch):
    if ch == 'f':
        a = np.array(F32, 'f4')
        return np.concatenate([a, np.array(F32S, 'u4').view('f4')])
    a = np.array(F64, 'f8')
    return np.concatenate([a, np.array(F64S, 'u8').view('f8')])


def alphabet(ch):
    """special values of a dtype"""
    if ch == '?':
        return np.array([False, True])
    if ch in 'fd':
        return floats(ch)
    return ints(ch)


def every(ch):
    """every value when that is small, else the alphabet"""
    if ch in 'bB':
        return np.arange(256, dtype=np.uint8).view(ch)
    if ch in 'hH':
        return np.arange(65536, dtype=np.uint16).view(ch)
    return alphabet(ch)


def pairs(a, b):
    return np.repeat(a, len(b)), np.tile(b, len(a))
