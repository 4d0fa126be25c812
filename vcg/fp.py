"""Floating-point operations over IEEE bit patterns.

A float/double value is its bit pattern (int or BV).  Conversions that matter to
the proofs are given by uninterpreted functions shared with the specification
(EXT, S2F, S2D) plus exact axioms; everything else goes to z3's FP theory.
"""
import struct
import z3

F32, F64, F16 = z3.Float32(), z3.Float64(), z3.Float16()
SORT = {16: F16, 32: F32, 64: F64}

# double bits of a float (exact widening); sitofp results
EXT = z3.Function('f32_to_f64', z3.BitVecSort(32), z3.BitVecSort(64))
S2F = z3.Function('i64_to_f32', z3.BitVecSort(64), z3.BitVecSort(32))
S2D = z3.Function('i64_to_f64', z3.BitVecSort(64), z3.BitVecSort(64))


def f32(bits):
    return struct.unpack('<f', struct.pack('<I', bits))[0]


def f64(bits):
    return struct.unpack('<d', struct.pack('<Q', bits))[0]


def bits32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bits64(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def tofp(b, n):
    if isinstance(b, int):
        b = z3.BitVecVal(b, n)
    return z3.fpBVToFP(b, SORT[n])


def is_ext(x):
    return z3.is_app(x) and x.decl().eq(EXT)


F2S = z3.Function('f32_to_i64', z3.BitVecSort(32), z3.BitVecSort(64))
D2F = z3.Function('f64_to_f32', z3.BitVecSort(64), z3.BitVecSort(32))
H16 = z3.Function('f32_to_f16', z3.BitVecSort(32), z3.BitVecSort(16))
TWO63 = 0x5F000000


def axiom_ext(x):
    """facts about the exact widening of x (lemma fp.ext, checked by lemmas())"""
    e = EXT(x)
    return [z3.Or(is_nan(x, 32), D2F(e) == x),
            z3.Extract(63, 63, e) == z3.Extract(31, 31, x),
            is_nan(e, 64) == is_nan(x, 32),
            (z3.Extract(62, 0, e) == 0) == (z3.Extract(30, 0, x) == 0)]


def axiom_h16(x):
    return [z3.Extract(15, 15, H16(x)) == z3.Extract(31, 31, x)]


def axiom_s2f(x):
    from spec.ops import i_is_f32
    r = S2F(x)
    return [z3.Implies(i_is_f32(x), r != TWO63),
            z3.Extract(31, 31, r) == z3.Extract(63, 63, x),
            z3.ULE(r & 0x7FFFFFFF, TWO63),
            (r == 0) == (x == 0), r != 0x80000000]


def axiom_s2d(x):
    r = S2D(x)
    return [z3.Extract(63, 63, r) == z3.Extract(63, 63, x),
            z3.ULE(r & ((1 << 63) - 1), 0x43E0 << 48),
            (r == 0) == (x == 0), r != 1 << 63]


def axiom_f2s(r):
    """truncation of a float that fits is again a float; exactly converted integers come back"""
    from spec.ops import i_is_f32
    out = [i_is_f32(F2S(r))]
    if z3.is_app(r) and r.decl().eq(S2F):
        x = r.arg(0)
        out.append(z3.Implies(i_is_f32(x), z3.And(F2S(r) == x, r != TWO63)))
    return out


def s2f_def(x):
    """int64 -> float, round to nearest even, as bit-vector arithmetic"""
    neg = z3.Extract(63, 63, x) == 1
    return s2f_mag(neg, z3.If(neg, -x, x))    # magnitude, unsigned


def s2f_mag(neg, m):
    # normalise: shift left so that bit 63 is set; e = number of shifts
    e = z3.BitVecVal(0, 8)
    n = m
    for k in (32, 16, 8, 4, 2, 1):
        c = z3.LShR(n, 64 - k) == 0
        n = z3.If(c, n << k, n)
        e = z3.If(c, e + k, e)
    q = z3.Extract(63, 40, n)                 # 24 bits
    rest = z3.Extract(39, 0, n)
    half = z3.BitVecVal(1 << 39, 40)
    up = z3.Or(z3.UGT(rest, half), z3.And(rest == half, z3.Extract(0, 0, q) == 1))
    # biased exponent of 1.f * 2^(63-e); the carry of rounding may bump it
    bits = z3.Concat(z3.BitVecVal(0, 1), z3.BitVecVal(127 + 63, 8) - e, z3.Extract(22, 0, q))
    bits = bits + z3.If(up, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    bits = z3.If(m == 0, z3.BitVecVal(0, 32), bits)
    return bits | z3.If(neg, z3.BitVecVal(1 << 31, 32), z3.BitVecVal(0, 32))


def f2s_def(r):
    """float -> int64, toward zero (in range)"""
    mag = f2s_mag(r)
    return z3.If(z3.Extract(31, 31, r) == 1, -mag, mag)


def f2s_mag(r):
    ex = z3.ZeroExt(56, z3.Extract(30, 23, r))
    man = z3.ZeroExt(40, z3.Concat(z3.BitVecVal(1, 1), z3.Extract(22, 0, r)))
    mag = z3.If(z3.ULT(ex, 127), z3.BitVecVal(0, 64),
                z3.If(z3.UGE(ex, 150), man << (ex - 150), z3.LShR(man, z3.BitVecVal(150, 64) - ex)))
    return mag


def fcast(eng, op, t1, x, t2):
    from .engine import Unsupported, bv, is_b
    if op == 'fpext':
        if t1[1] == 32 and t2[1] == 64:
            if isinstance(x, int):
                return bits64(f32(x))
            eng.theory.pending += axiom_ext(x)
            return EXT(x)
        raise Unsupported('fpext')
    if op == 'fptrunc':
        if isinstance(x, int):
            try:
                return bits32(f64(x))
            except OverflowError:
                return 0x7F800000 | ((x >> 63) << 31)
        if is_ext(x):
            return x.arg(0)
        return D2F(x)
    if op in ('sitofp', 'uitofp'):
        n = t1[1]
        if is_b(x):
            x = bv(x, n)
        if isinstance(x, int):
            if op == 'sitofp' and x >> (n - 1):
                x -= 1 << n
            if t2[1] == 64:
                return bits64(float(x))
            # int -> float directly (no double rounding)
            r = z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), z3.BitVecVal(x, 66), F32)))
            return r.as_long()
        if n < 64:
            x = z3.SignExt(64 - n, x) if op == 'sitofp' else z3.ZeroExt(64 - n, x)
        elif op == 'uitofp':
            r = eng.fresh('uitofp', t2[1])
            eng.theory.pending.append(
                z3.fpBVToFP(r, SORT[t2[1]]) == z3.fpUnsignedToFP(z3.RNE(), x, SORT[t2[1]]))
            return r
        if t2[1] == 32:
            eng.theory.pending += axiom_s2f(x)
            return S2F(x)
        eng.theory.pending += axiom_s2d(x)
        return S2D(x)
    if op in ('fptosi', 'fptoui'):
        n = t2[1]
        if op == 'fptosi' and n == 64 and t1[1] == 32 and not isinstance(x, int):
            eng.theory.pending += axiom_f2s(x)
            return F2S(x)
        f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
        return z3.simplify(f(z3.RTZ(), tofp(x, t1[1]), z3.BitVecSort(n)))
    raise Unsupported('fp cast ' + op)


def sign(x, n):
    return z3.Extract(n - 1, n - 1, x) == 1


def is_nan(x, n):
    inf = (0xFF << 23) if n == 32 else (0x7FF << 52)
    return z3.UGT(x & ((1 << (n - 1)) - 1), inf)


def key(x, n):
    """order-preserving integer of a non-NaN float (+0 and -0 coincide), n+1 bits signed"""
    mag = z3.ZeroExt(1, x & ((1 << (n - 1)) - 1))
    return z3.If(sign(x, n), -mag, mag)


def fcmp(eng, pred, ty, a, b):
    """IEEE comparison on bit patterns, bit-precise"""
    from .engine import fold, bv
    n = ty[1]
    if pred in ('true', 'false'):
        return int(pred == 'true')
    if n == 64:
        # comparisons of exactly widened floats are comparisons of the floats
        def narrow(v):
            if isinstance(v, int):
                d = f64(v)
                try:
                    w = bits32(d)
                except OverflowError:
                    return None
                return w if bits64(f32(w)) == v else None
            return v.arg(0) if is_ext(v) else None
        na, nb = narrow(a), narrow(b)
        if na is not None and nb is not None:
            return fcmp(eng, pred, ('f', 32), na, nb)
    x, y = bv(a, n), bv(b, n)
    unord = z3.Or(is_nan(x, n), is_nan(y, n))
    if pred == 'ord':
        return fold(z3.Not(unord))
    if pred == 'uno':
        return fold(unord)
    kx, ky = key(x, n), key(y, n)
    p = pred[1:]
    e = {'eq': kx == ky, 'ne': kx != ky, 'lt': kx < ky, 'le': kx <= ky, 'gt': kx > ky,
         'ge': kx >= ky}[p]
    if pred[0] == 'o':
        return fold(z3.And(z3.Not(unord), e))
    return fold(z3.Or(unord, e))


def fpclass(eng, n, x, mask):
    from .engine import fold, bv
    x = bv(x, n)
    v = tofp(x, n)
    s = sign(x, n)
    cl = []
    if mask & 3:
        cl.append(z3.fpIsNaN(v))
    for bit, c in ((2, z3.And(s, z3.fpIsInf(v))), (3, z3.And(s, z3.fpIsNormal(v))),
                   (4, z3.And(s, z3.fpIsSubnormal(v))), (5, z3.And(s, z3.fpIsZero(v))),
                   (6, z3.And(z3.Not(s), z3.fpIsZero(v))), (7, z3.And(z3.Not(s), z3.fpIsSubnormal(v))),
                   (8, z3.And(z3.Not(s), z3.fpIsNormal(v))), (9, z3.And(z3.Not(s), z3.fpIsInf(v)))):
        if mask >> bit & 1:
            cl.append(c)
    return fold(z3.Or(cl))
