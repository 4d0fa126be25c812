"""Values that are either python ints/bools (oracle) or z3 terms (proof): one spec text for both."""
import z3

M64 = (1 << 64) - 1


def conc(*xs):
    return all(isinstance(x, (int, bool)) for x in xs)


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def Not(c):
    return (not c) if isinstance(c, (bool, int)) else z3.Not(c)


def Imp(a, b):
    return Or(Not(a), b)


def zb(c):
    return z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c


def w64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def ite(c, a, b):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, int) and isinstance(b, int):
        return a if a == b else z3.If(c, z3.BitVecVal(a, 64), z3.BitVecVal(b, 64))
    n = a.size() if not isinstance(a, int) else b.size()
    if isinstance(a, int):
        a = z3.BitVecVal(a, n)
    if isinstance(b, int):
        b = z3.BitVecVal(b, n)
    return a if a.eq(b) else z3.If(c, a, b)


def eq(a, b):
    return a == b


def shl(x, k):
    return (x << k) & M64 if isinstance(x, int) else x << k


def shr(x, k):
    """logical"""
    return x >> k if isinstance(x, int) else z3.LShR(x, k)


def add(a, b):
    if conc(a, b):
        return (a + b) & M64
    return w64(a) + w64(b)


def sub(a, b):
    if conc(a, b):
        return (a - b) & M64
    return w64(a) - w64(b)


def sgn(x):
    return x - (1 << 64) if x >> 63 else x


def sle(a, b):
    """signed 64-bit <= with python-int constants allowed negative"""
    if conc(a, b):
        return sgn(a & M64) <= sgn(b & M64)
    return w64(a & M64 if isinstance(a, int) else a) <= w64(b & M64 if isinstance(b, int) else b)


def inrange(x, lo, hi):
    return And(sle(lo, x), sle(x, hi))


def band(a, b):
    return a & b


def bor(a, b):
    return a | b


def nz(x):
    return x != 0


def b2i(c):
    """bool -> 0/1 word"""
    return ite(c, 1, 0) if not isinstance(c, (bool, int)) else int(c)


def field(x, lo, n):
    return band(shr(x, lo), (1 << n) - 1)


def f16_rne(f):
    """IEEE single -> half, round to nearest even; NaN -> all-ones payload, sign kept."""
    if isinstance(f, int):
        s, e, m = f >> 31, (f >> 23) & 0xFF, f & 0x7FFFFF
        if e == 255:
            return (s << 15) | (0x7FFF if m else 0x7C00)
        from fractions import Fraction
        if e == 0:
            v = Fraction(m, 1 << 149)
        else:
            v = Fraction((m | 0x800000)) * (Fraction(2) ** (e - 150))
        # quantum
        if v == 0:
            return s << 15
        k = -24
        ex = 0
        import math
        # exponent of v
        n = v.numerator.bit_length() - v.denominator.bit_length()
        while Fraction(2) ** n > v:
            n -= 1
        while Fraction(2) ** (n + 1) <= v:
            n += 1
        k = max(n - 10, -24)
        q = v / (Fraction(2) ** k)
        i = q.numerator // q.denominator
        r = q - i
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and i & 1):
            i += 1
        # i * 2^k -> bits
        if i == 0:
            return s << 15
        while i >= 2048:
            i //= 2
            k += 1
        if i < 1024:
            return (s << 15) | i         # subnormal (k == -24)
        be = k + 25
        if be >= 31:
            return (s << 15) | 0x7C00
        return (s << 15) | (be << 10) | (i & 0x3FF)
    from vcg.fp import H16
    return H16(f)


def f16_def(f):
    """the same, as a term"""
    h = z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(f, z3.Float32()), z3.Float16())
    bits = z3.fpToIEEEBV(h)
    nan = z3.And(z3.Extract(30, 23, f) == 255, z3.Extract(22, 0, f) != 0)
    return z3.If(nan, z3.Concat(z3.Extract(31, 31, f), z3.BitVecVal(0x7FFF, 15)), bits)


def widen(f):
    """exact single -> double bits"""
    if isinstance(f, int):
        import struct
        if (f >> 23) & 0xFF == 255 and f & 0x7FFFFF:
            return ((f >> 31) << 63) | (0x7FF << 52) | ((f & 0x7FFFFF) << 29)
        d = struct.unpack('<f', struct.pack('<I', f))[0]
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    from vcg.fp import EXT
    return EXT(f)


def i2f(x):
    if isinstance(x, int):
        return z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(
            z3.RNE(), z3.BitVecVal(x, 64), z3.Float32()))).as_long()
    from vcg.fp import S2F
    return S2F(x)


def i2d(x):
    if isinstance(x, int):
        import struct
        return struct.unpack('<Q', struct.pack('<d', float(sgn(x))))[0]
    from vcg.fp import S2D
    return S2D(x)


def i_is_f32(x):
    """the 64-bit integer is exactly a single-precision value"""
    if isinstance(x, int):
        v = abs(sgn(x))
        if v == 0:
            return True
        while v % 2 == 0:
            v //= 2
        return v < (1 << 24)
    # magnitude has at most 24 significant bits: v & (v-1-...) ; use lowest set bit
    m = z3.If(x < 0, -x, x)             # as unsigned 64-bit magnitude
    low = m & -m
    # m < low * 2^24 (no overflow when low >= 2^40, then always true)
    return z3.Or(m == 0, z3.UGE(low, z3.BitVecVal(1 << 40, 64)),
                 z3.ULT(m, low << 24))


def low32(x):
    return x & 0xFFFFFFFF if isinstance(x, int) else z3.Extract(31, 0, x)


def z64(x, n):
    """zero-extend an n-bit value to 64"""
    return x if isinstance(x, int) else z3.ZeroExt(64 - n, x)
