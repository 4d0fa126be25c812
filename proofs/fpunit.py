"""Floating-point lemmas (facts the operand proofs use) and the half conversion, for all inputs."""
import time
import z3

from vcg.engine import *
from vcg import fp
from spec.ops import f16_def, i_is_f32
from .pool import Report


def s2d_def(x):
    """int64 -> double, round to nearest even, as bit-vector arithmetic"""
    neg = z3.Extract(63, 63, x) == 1
    m = z3.If(neg, -x, x)
    e = z3.BitVecVal(0, 11)
    n = m
    for k in (32, 16, 8, 4, 2, 1):
        c = z3.LShR(n, 64 - k) == 0
        n = z3.If(c, n << k, n)
        e = z3.If(c, e + k, e)
    q = z3.Extract(63, 11, n)
    rest = z3.Extract(10, 0, n)
    half = z3.BitVecVal(1 << 10, 11)
    up = z3.Or(z3.UGT(rest, half), z3.And(rest == half, z3.Extract(0, 0, q) == 1))
    bits = z3.Concat(z3.BitVecVal(0, 1), z3.BitVecVal(1023 + 63, 11) - e, z3.Extract(51, 0, q))
    bits = bits + z3.If(up, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    bits = z3.If(m == 0, z3.BitVecVal(0, 64), bits)
    return bits | z3.If(neg, z3.BitVecVal(1 << 63, 64), z3.BitVecVal(0, 64))


def ext_def(r):
    """exact widening of a non-NaN single, as bit-vector arithmetic"""
    s, e, m = z3.Extract(31, 31, r), z3.Extract(30, 23, r), z3.Extract(22, 0, r)
    n = m
    k = z3.BitVecVal(0, 11)
    for w in (16, 8, 4, 2, 1):
        c = z3.LShR(n, 23 - w) == 0
        n = z3.If(c, n << w, n)
        k = z3.If(c, k + w, k)
    # subnormal: m * 2^-149 = 1.f * 2^(-127-k) with n normalised to bit 22
    sub = z3.Concat(s, z3.BitVecVal(1023 - 127, 11) - k, z3.Extract(21, 0, n), z3.BitVecVal(0, 30))
    nrm = z3.Concat(s, z3.ZeroExt(3, e) + (1023 - 127), m, z3.BitVecVal(0, 29))
    inf = z3.Concat(s, z3.BitVecVal(0x7FF, 11), m, z3.BitVecVal(0, 29))
    zero = z3.Concat(s, z3.BitVecVal(0, 63))
    return z3.If(e == 255, inf, z3.If(e != 0, nrm, z3.If(m == 0, zero, sub)))


def lemmas():
    x = z3.BitVec('x', 64)
    r = z3.BitVec('r', 32)
    sub = lambda f, t, d: z3.substitute(f, (t, d))
    out = []
    d = fp.s2f_def(x)
    for i, c in enumerate(fp.axiom_s2f(x)):
        out.append(('single of an integer.%d' % i, sub(c, fp.S2F(x), d)))
    for i, c in enumerate(fp.axiom_s2d(x)):
        out.append(('double of an integer.%d' % i, sub(c, fp.S2D(x), s2d_def(x))))
    # case split on the exponent, so that every shift is by a constant
    for ex in range(0, 191):
        v = z3.Concat(z3.Extract(31, 31, r), z3.BitVecVal(ex, 8), z3.Extract(22, 0, r))
        g = i_is_f32(fp.f2s_def(v))
        out.append(('integer of a single is a single.%d' % ex,
                    z3.Implies(v == 0xDF000000, g) if ex == 190 else g))
    y = ext_def(r)
    nn = z3.Not(fp.is_nan(r, 32))
    for i, c in enumerate(fp.axiom_ext(r)):
        if i == 0:
            continue        # narrowing of an exact widening: injectivity below
        out.append(('widening.%d' % i, z3.Implies(nn, sub(c, fp.EXT(r), y))))
    r2 = z3.BitVec('r2', 32)
    out.append(('widening is injective', z3.Implies(z3.And(nn, z3.Not(fp.is_nan(r2, 32)), ext_def(r) == ext_def(r2)), r == r2)))
    # a single that came from an exactly representable integer converts back to it
    # (case split on sign and leading bit of the magnitude)
    for L in range(64):
        m = z3.BitVecVal(1, 64 - L) if L == 0 else z3.Concat(z3.BitVecVal(1, 64 - L), z3.Extract(L - 1, 0, x))
        for neg in (0, 1):
            if L == 63 and not neg:
                continue
            if L == 63:
                m = z3.BitVecVal(1 << 63, 64)      # the only negative number of that magnitude
            # stated on magnitudes: the integer is m or -m, its single has that sign
            dv = fp.s2f_mag(z3.BoolVal(bool(neg)), m)
            out.append(('exact integers round-trip.%d.%d' % (L, neg),
                        z3.Implies(i_is_f32(m), z3.And(fp.f2s_mag(dv) == m, dv != fp.TWO63,
                                                       z3.Extract(31, 31, dv) == neg))))
    out.append(('magnitude of a negation', z3.Implies(x < 0, i_is_f32(-x) == i_is_f32(x))))
    out.append(('exact integers round-trip.zero', z3.Implies(x == 0, z3.And(fp.f2s_def(fp.s2f_def(z3.BitVecVal(0, 64))) == 0))))
    out.append(('half keeps the sign', z3.Extract(15, 15, half_def(r)) == z3.Extract(31, 31, r)))
    return out


def half_def(r):
    """single -> half, round to nearest even, as bit-vector arithmetic (NaN: all ones payload)"""
    s, e, m = z3.Extract(31, 31, r), z3.Extract(30, 23, r), z3.Extract(22, 0, r)
    man = z3.ZeroExt(8, z3.Concat(z3.BitVecVal(1, 1), m))        # 32 bits, 1.m
    # exponent of the result's quantum: normal results drop 13 bits, subnormal ones 126 - e
    drop = z3.If(z3.UGT(e, 112), z3.BitVecVal(13, 32), z3.BitVecVal(126, 32) - z3.ZeroExt(24, e))
    big = z3.UGT(drop, 25)
    drop = z3.If(big, z3.BitVecVal(25, 32), drop)
    q = z3.LShR(man, drop)
    rest = man & ((z3.BitVecVal(1, 32) << drop) - 1)
    half = z3.BitVecVal(1, 32) << (drop - 1)
    up = z3.Or(z3.UGT(rest, half), z3.And(rest == half, z3.Extract(0, 0, q) == 1))
    q = q + z3.If(up, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    ex = z3.If(z3.UGT(e, 112), z3.ZeroExt(24, e) - 113, z3.BitVecVal(0, 32))
    fin = (ex << 10) + q
    # normal results: implicit bit adds one to the exponent field, which is why 113 is subtracted
    fin = z3.If(z3.UGE(fin, 0x7C00), z3.BitVecVal(0x7C00, 32), fin)
    fin = z3.If(z3.Or(e == 0, big), z3.BitVecVal(0, 32), fin)
    fin = z3.If(z3.UGT(e, 142), z3.BitVecVal(0x7C00, 32), fin)
    v = z3.If(e == 255, z3.If(m == 0, z3.BitVecVal(0x7C00, 16), z3.BitVecVal(0x7FFF, 16)), z3.Extract(15, 0, fin))
    return v | z3.Concat(s, z3.BitVecVal(0, 15))


def verify_lemmas(timeout_ms=60000):
    rep = Report('floating-point lemmas')
    t0 = time.time()
    for name, f in lemmas():
        s = z3.SolverFor('QF_BV')
        s.set('timeout', timeout_ms)
        s.add(z3.Not(f))
        r = s.check()
        rep.nchecks += 1
        if r == z3.unsat:
            rep.obligations['lemma ' + name] = 1
        else:
            rep.failures.append(('lemma ' + name, 'refuted' if r == z3.sat else 'unknown', ''))
            rep.status = 'unknown'
    rep.solver_s = time.time() - t0
    return rep


def verify_half(mod, fname, timeout_ms=120000):
    """the conversion function returns half_def(x) for every bit pattern x"""
    eng = Engine(mod, timeout_ms)
    eng.theory = Theory()
    install_base(eng)
    st = State()
    x = z3.BitVec('x', 32)
    outs = eng.call(st, Fn(fname), [x], ('i', 16))
    n = 0
    for s, v in outs:
        n += 1
        for k in range(8):     # case split on exponent bits keeps each query small
            lo = k * 32
            e = z3.Extract(30, 23, x)
            s2 = s.clone()
            s2.assume(z3.And(z3.UGE(e, lo), z3.ULE(e, lo + 31)))
            if eng.check(s2) == 'unsat':
                continue
            eng.oblige(s2, bv(v, 16) == half_def(x), 'half conversion is correctly rounded')
    if not n:
        raise Unsupported('no return from the half conversion')
    return Report('half conversion').take(eng)
