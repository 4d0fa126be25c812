"""Specification of every operand kind of the assembly language.

An operand specification maps a parse state S (current token, word V, reuse R,
address pc) to the next one, or rejects.  The same text is evaluated on z3 terms
(as the postcondition of the C++ operand function) and on python values (as the
oracle that judges replayed inputs).  Bit positions, value ranges, name tables and
defaults are those of the Maxwell instruction set the assembler targets.
"""
import re
from .ops import *

(NONE, IDENT, REG, PRED, IMM, FLT, PLUS, MINUS, TILDE, VBAR, LBR, RBR, AT, SEMI, COMMA) = range(15)
REUSE = {8: 1, 20: 2, 39: 4}
RZ = 255


class Spec:
    """one operand kind: transformer f, bits it may set (mask/rmask), precondition on V"""

    def __init__(self, key, f, mask=0, rmask=0, pre=None, acc_v=False, nxt_v=False, bits_v=False,
                 uses_pc=False):
        self.key = key
        self.f = f
        self.mask = mask
        self.rmask = rmask
        self.pre = pre if pre is not None else (lambda V: (V & mask) == 0)
        self.acc_v = acc_v       # acceptance depends on V
        self.nxt_v = nxt_v       # number of tokens consumed depends on V
        self.bits_v = bits_v     # new V is not V | bits(tokens)
        self.uses_pc = uses_pc


MAKERS = {}


def kind(name):
    def d(f):
        MAKERS[name] = f
        return f
    return d


def flag(string, addr):
    bit = 1 << addr
    # a modifier whose bit an earlier modifier already claimed (.PO with a negation) is rejected
    return (lambda S: S.when(S.s(string), lambda S: S.req((S.V & bit) == 0).bits(bit).adv())), bit


def simple_flag(name, string, default=None):
    def mk(key, a=None):
        addr = default if a is None else a
        f, m = flag(string, addr)
        return Spec(key, f, m, acc_v=True, pre=lambda V: True)
    MAKERS[name] = mk


for n, s, d in [('cc', '.CC', 47), ('psl', '.PSL', None), ('x', '.X', None), ('mrg', '.MRG', None),
                ('brev', '.BREV', None), ('ftz', '.FTZ', None), ('sat', '.SAT', None),
                ('bf', '.BF', None), ('h_and', '.H_AND', None), ('u', '.U', None),
                ('lmt', '.LMT', None), ('w', '.W', None), ('post_neg', '.NEG', None),
                ('post_abs', '.ABS', None), ('sh', '.SH', None), ('inv', '.INV', None),
                ('keeprefcount', '.KEEPREFCOUNT', 5), ('ald::o', '.O', 32), ('al2p::o', '.O', 32),
                ('nop::trig', '.TRIG', 13), ('stg::e', '.E', 45), ('lds::u', '.U', 44),
                ('image::ba', '.BA', None), ('atom::e', '.E', 48), ('red::e', '.E', 48),
                ('ndv', '.NDV', None), ('nodep', '.NODEP', None), ('dc', '.DC', None),
                ('aoffi', '.AOFFI', None), ('lc', '.LC', None), ('ms', '.MS', None),
                ('cl', '.CL', None)]:
    simple_flag(n, s, d)


def width_mask(n_values, addr):
    return ((1 << max(1, (n_values - 1).bit_length())) - 1) << addr


def table(S, entries, prefix):
    """(found, index) of the current token in a name table; '' entries are holes"""
    return S.table([(prefix + e) if e else None for e in entries])


def dot_table(S, entries, default, addr, prefix='.'):
    found, idx = table(S, entries, prefix)
    if default is None:
        return S.req(found).bits(shl(idx, addr)).adv()
    return S.when(found, lambda S: S.bits(shl(idx, addr)).adv(),
                  lambda S: S.bits((default << addr) & M64))


def simple_table(name, default, addr, *entries):
    def mk(key, a=None):
        ad = addr if a is None else a
        vals = [i for i, e in enumerate(entries) if e]
        m = 0
        for v in vals + ([default] if default is not None else []):
            m |= v << ad
        return Spec(key, lambda S: dot_table(S, entries, default, ad), m)
    MAKERS[name] = mk


T = simple_table
FCMP = ("F", "LT", "EQ", "LE", "GT", "NE", "GE", "NUM", "NAN", "LTU", "EQU", "LEU", "GTU", "NEU",
        "GEU", "T")
FLOW = FCMP + ("OFF", "LO", "SFF", "LS", "HI", "SFT", "HS", "OFT", "CSM_TA", "CSM_TR", "CSM_MX",
               "FCSM_TA", "FCSM_TR", "FCSM_MX", "RLE", "RGT")
SIZES = ("U8", "S8", "U16", "S16", "32", "64", "128")
T('half', 0, None, "H0", "H1")
T('int_sign', 1, 48, "U32", "S32")
T('float_format', 2, None, "", "F16", "F32", "F64")
T('byte_selector', 0, None, "B0", "B1", "B2", "B3")
T('fp_rounding', 0, None, "RN", "RM", "RP", "RZ")
T('memory::size', 4, 48, *SIZES)
T('stg::size', 4, 48, *SIZES)
T('store_cache', 0, None, "", "CG", "CS", "WT")
T('rro::mode', None, 39, "SINCOS", "EX2")
T('load_cache', 0, None, "", "CG", "CI", "CV")
T('lop::bit_op', None, None, "AND", "OR", "XOR", "PASS_B")
T('lop::pred_op', 0, 44, "", "T", "Z", "NZ")
T('amem::size', 0, 47, "32", "64", "96", "128")
T('ald::size', 0, 47, "32", "64", "96", "128")
T('cc_tests', 15, 8, *FLOW)
T('xmad::mode_a', 0, 50, "", "CLO", "CHI", "CSFU", "CBCC")
T('xmad::mode_b', 0, 50, "", "CLO", "CHI", "CSFU")
T('lop3::operation', 0, 36, "", "T", "Z", "NZ")
T('shr::format', 1, 48, "U32", "S32")
T('shr::mode', 0, 39, "C", "W")
T('shr::xmode', 0, 43, "", "INVALIDSHRXMODE1", "X", "XHI")
T('bfe::format', 1, 48, "U32", "S32")
T('bpt::mode', None, 6, "DRAIN_ILLEGAL", "CAL", "PAUSE", "TRAP", "INT", "DRAIN")
T('fmul::fmz', 0, None, "", "FTZ", "FMZ", "INVALIDFMZ3")
T('fmul::scale', 0, 41, "", "D2", "D4", "D8", "M8", "M4", "M2", "INVALIDSCALE37")
T('iadd3::shift', 0, 37, "", "RS", "LS")
T('iadd3::half', 0, None, "", "H0", "H1")
T('f2i::rounding', 0, 39, "", "FLOOR", "CEIL", "TRUNC")
T('fp16::merge', 0, None, "", "F32", "MRG_H0", "MRG_H1")
T('fp16::control', 0, None, "", "FTZ", "FMZ")
T('fp16::swizzle', 0, None, "H1_H0", "F32", "H0_H0", "H1_H1")
T('stl::cache', 0, 44, "", "CG", "CS", "WT")
T('float_compare', None, None, *FCMP)
T('integer_compare', None, None, "F", "LT", "EQ", "LE", "GT", "NE", "GE", "T")
T('vsetp::integer_compare', None, None, "F", "LT", "EQ", "LE", *[""] * 12, "GT", "NE", "GE", "T")
T('mufu::operation', None, 20, "COS", "SIN", "EX2", "LG2", "RCP", "RSQ", "RCP64H", "RSQ64H", "SQRT")
T('imnmx::mode', 0, 43, "", "XLO", "XMED", "XHI")
T('ldc::mode', 0, 44, "", "IL", "IS", "ISL")
T('ldc::size', None, 48, "U8", "S8", "U16", "S16", "32", "64")
T('image::type', None, 33, "1D", "1D_BUFFER", "1D_ARRAY", "2D", "2D_ARRAY", "3D")
T('image::rgba', 15, 20, "", "R", "G", "RG", "B", "RB", "GB", "RGB", "A", "RA", "GA", "RGA", "BA",
  "RBA", "GBA", "RGBA")
T('image::size', 4, 20, *SIZES)
T('image::clamp', 1, 49, "IGN", "", "TRAP")
T('shfl::mode', None, 30, "IDX", "UP", "DOWN", "BFLY")
T('ldg::cache', 0, 46, "", "CG", "CI", "CV")
T('atoms::operation', None, 52, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR", "EXCH")
T('atoms::size', None, 28, "U32", "S32", "U64", "S64")
T('ldl::cache', 0, 44, "", "LU", "CI", "CV")
T('vote::operation', None, 48, "ALL", "ANY", "EQ")
T('atom::operation', None, 52, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR", "EXCH", "SAFEADD")
T('shf::max_shift', 0, 37, "32", "INVALIDMAXSHIFT3", "U64", "S64")
T('shf::xmode', 0, 48, "", "HI", "X", "XHI")
T('noinc', 1, 6, "NOINC", "INC")
T('video::dest_sign', 1, 54, "UD", "SD")
T('video::mx', 0, None, "MN", "MX")
T('video::vmnmx_op', 7, None, "MRG_16H", "MRG_16L", "MRG_8B0", "MRG_8B2", "ACC", "MIN", "MAX")
T('vmad::scale', 0, 51, "", "SHR_7", "SHR_15", "INVALIDVMADSCALE3")
T('red::operation', 0, 23, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR")
T('blod', 0, None, "", "LZ", "LB", "LL", "INVALIDBLOD4", "INVALIDBLOD5", "LBA", "LLA")
T('sample_size', 1, None, "F16", "")
T('sample_size_inv', 0, None, "", "F16")
T('tld4::component', None, None, "R", "G", "B", "A")
T('tld4::offset', 0, None, "", "AOFFI", "PTP")
T('tld::lod', None, None, "LZ", "LL")


def bare_table(name, addr, *entries):
    def mk(key, a=None):
        ad = addr if a is None else a
        m = 0
        for i, e in enumerate(entries):
            if e:
                m |= i << ad
        return Spec(key, lambda S: dot_table(S, entries, None, ad, ''), m)
    MAKERS[name] = mk


bare_table('p2r::mode', None, "PR", "CC")
bare_table('tex_type', None, "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE")
bare_table('txq::mode', 22, "", "TEX_HEADER_DIMENSION", "TEX_HEADER_TEXTURE_TYPE", "", "",
           "TEX_HEADER_SAMPLER_POS")


@kind('bop')
def _(key, addr):
    return Spec(key, lambda S: dot_table(S, ("AND", "OR", "XOR", "INVALIDBOP3"), None, addr), 3 << addr)


def text(name, string, bits=0):
    """a mandatory word"""
    MAKERS[name] = lambda key: Spec(key, lambda S: S.req(S.s(string)).bits(bits).adv(), bits)


text('cc_text', 'CC')
text('lop3::lut', '.LUT')
text('ald::p', '.P', 1 << 31)
text('ald::phys', '.PHYS')
text('b2r::warp', '.WARP', (0xE << 32) | (0xFF << 8))
text('b2r::result', '.RESULT', (0xD << 32) | (0xFF << 8))
text('image::p', '.P')
text('image::d', '.D', 1 << 52)
text('lea::hi', '.HI')
text('shf::r', '.R')
text('shf::l', '.L')
text('b_text', '.B')
text('lod_text', '.LOD')


@kind('lea::lo')
def _(key):
    return Spec(key, lambda S: S.when(S.s('.LO'), lambda S: S.adv()))


@kind('comma')
def _(key):
    return Spec(key, lambda S: S.req(S.ty(COMMA)).adv())


@kind('zero')
def _(key):
    return Spec(key, lambda S: S.req(And(S.ty(IMM), S.imm() == 0)).adv())


# ---------------------------------------------------------------- registers
def gpr(S, addr):
    S = S.req(S.ty(REG))
    S = S.bits(shl(S.reg(), addr)).adv()
    if addr in REUSE:
        return S.when(S.s('.reuse'), lambda S: S.reuse(REUSE[addr]).adv())
    return S.req(Not(S.s('.reuse')))


@kind('sgpr')
def _(key, addr):
    return Spec(key, lambda S: gpr(S, addr), 0xFF << addr, REUSE.get(addr, 0))


MAKERS['dgpr'] = MAKERS['sgpr']


@kind('mirror_dgpr')
def _(key, addr):
    m = 0xFF << addr

    def f(S):
        want = S.V
        S = gpr(S.setV(S.V & (M64 ^ m)), addr)
        return S.req(S.V == want)
    return Spec(key, f, 0, REUSE.get(addr, 0), pre=lambda V: True, acc_v=True)


@kind('default_rz')
def _(key, addr):
    return Spec(key, lambda S: S.bits(0xFF << addr), 0xFF << addr)


# ---------------------------------------------------------------- predicates and signs
@kind('pred')
def _(key, addr, negable=False):
    def f(S):
        S = S.req(S.ty(PRED))
        b = shl(S.pidx(), addr)
        if negable:
            return S.bits(b).bits(shl(S.pneg(), addr + 3)).adv()
        return S.req(S.pneg() == 0).bits(b).adv()
    return Spec(key, f, (15 if negable else 7) << addr)


@kind('inverted_pred')
def _(key, addr):
    return Spec(key, lambda S: S.req(And(S.ty(PRED), S.pneg() == 0)).bits(
        shl(sub(7, S.pidx()), addr)).adv(), 7 << addr)


def sign(name, ty):
    def mk(key, addr):
        bit = 1 << addr
        return Spec(key, lambda S: S.when(S.ty(ty), lambda S: S.req((S.V & bit) == 0).bits(bit).adv()),
                    bit, acc_v=True, pre=lambda V: True)
    MAKERS[name] = mk


sign('neg', MINUS)
sign('tilde', TILDE)


@kind('abs')
def _(key, addr, inner):
    i = make(inner)
    bit = 1 << addr

    def f(S):
        return S.when(S.ty(VBAR),
                      lambda S: (lambda S: S.req(S.ty(VBAR)).adv())(i.f(S.bits(bit).adv())),
                      lambda S: i.f(S))
    return Spec(key, f, bit | i.mask, i.rmask)


@kind('po')
def _(key, a1, a2):
    m = (1 << a1) | (1 << a2)
    return Spec(key, lambda S: S.when(S.s('.PO'), lambda S: S.bits(m).adv()), m)


# ---------------------------------------------------------------- integers
def uint(S, hi, addr):
    S = S.req(And(S.ty(IMM), inrange(S.imm(), 0, hi)))
    return S.bits(shl(S.imm(), addr)).adv()


def sint(S, bits, addr):
    S = S.req(And(S.ty(IMM), inrange(S.imm(), -(1 << (bits - 1)), (1 << (bits - 1)) - 1)))
    return S.bits(shl(S.imm() & ((1 << bits) - 1), addr)).adv()


def uint_kind(name, bits=None, addr=None):
    def mk(key, b=bits, a=addr):
        if bits is not None and addr is None and a is None:
            b, a = bits, b
        return Spec(key, lambda S: uint(S, (1 << b) - 1, a), ((1 << b) - 1) << a)
    MAKERS[name] = mk


uint_kind('uinteger')
uint_kind('uimm32', 32, 20)
uint_kind('uimm16', 16, 20)
uint_kind('nop::mask', 16, 20)


@kind('mask4')
def _(key, a):
    return Spec(key, lambda S: uint(S, 15, a), 15 << a)


@kind('sinteger')
def _(key, b, a):
    return Spec(key, lambda S: sint(S, b, a), ((1 << b) - 1) << a)


@kind('simm32')
def _(key):
    return Spec(key, lambda S: sint(S, 32, 20), 0xFFFFFFFF << 20)


def split20(S, v):
    """20-bit two's complement: low 19 bits at 20, top bit at 56"""
    return S.bits(shl(v & 0x7FFFF, 20)).bits(shl(field(v, 19, 1), 56)).adv()


@kind('imm')
def _(key):
    def f(S):
        S = S.req(And(S.ty(IMM), inrange(S.imm(), -(1 << 19), (1 << 19) - 1)))
        return split20(S, S.imm())
    return Spec(key, f, (0x7FFFF << 20) | (1 << 56))


@kind('uimm_extended')
def _(key):
    def f(S):
        S = S.req(And(S.ty(IMM), inrange(S.imm(), 0, (1 << 20) - 1)))
        return split20(S, S.imm())
    return Spec(key, f, (0x7FFFF << 20) | (1 << 56))


# ---------------------------------------------------------------- floating point
def signed_name(S, k):
    """[+-] QNAN | INF ; k(S, negate, is_qnan) continues at the name"""
    neg = S.ty(MINUS)
    S = S.when(Or(S.ty(PLUS), S.ty(MINUS)), lambda S: S.adv())
    q = S.s('QNAN')
    S = S.req(Or(q, S.s('INF')))
    return k(S, neg, q)


@kind('fimm')
def _(key, bits=20):
    def enc(S, r):          # r: IEEE single bits (32-bit)
        w = z64(r, 32)
        if bits == 20:
            return S.bits(shl(field(w, 12, 19), 20)).bits(shl(field(w, 31, 1), 56)).adv()
        return S.bits(shl(w, 20)).adv()

    def f(S):
        return S.when(S.ty(FLT), lambda S: enc(S, S.f32()), lambda S: S.when(
            S.ty(IMM), lambda S: enc(S.req(i_is_f32(S.imm())), i2f(S.imm())),
            lambda S: S.req(Or(S.ty(PLUS), S.ty(MINUS), S.ty(IDENT))).then(
                lambda S: signed_name(S, lambda S, neg, q: enc(
                    S, low32(bor(ite(q, 0x7FC00000, 0x7F800000), ite(neg, 1 << 31, 0))))))))
    return Spec(key, f, ((0x7FFFF << 20) | (1 << 56)) if bits == 20 else (0xFFFFFFFF << 20))


MAKERS['fimm32'] = lambda key: MAKERS['fimm'](key, 32)


@kind('dimm20')
def _(key):
    def enc(S, d):          # IEEE double bits
        return S.bits(shl(field(d, 44, 19), 20)).bits(shl(field(d, 63, 1), 56)).adv()

    def f(S):
        return S.when(S.ty(FLT), lambda S: enc(S, widen(S.f32())), lambda S: S.when(
            S.ty(IMM), lambda S: enc(S, i2d(S.imm())),
            lambda S: S.req(Or(S.ty(PLUS), S.ty(MINUS), S.ty(IDENT))).then(
                lambda S: signed_name(S, lambda S, neg, q: enc(
                    S, bor(ite(q, 0x7FF8 << 48, 0x7FF0 << 48), ite(neg, 1 << 63, 0)))))))
    return Spec(key, f, (0x7FFFF << 20) | (1 << 56))


def half_imm(bits, off, neg_bit):
    def mk(key, nb=neg_bit):
        def enc(S, h):      # 16-bit pattern in a word
            if bits == 9:   # exponent and the top 4 fraction bits; sign in its own bit
                return S.bits(shl(field(h, 6, 9), off)).bits(shl(field(h, 15, 1), nb)).adv()
            return S.bits(shl(h, off)).adv()

        def f(S):
            return S.when(S.ty(FLT), lambda S: enc(S, z64(f16_rne(S.f32()), 16)), lambda S: S.when(
                S.ty(IMM), lambda S: enc(S, z64(f16_rne(i2f(S.imm())), 16)),
                lambda S: S.req(Or(S.ty(PLUS), S.ty(MINUS), S.ty(IDENT))).then(
                    lambda S: signed_name(S, lambda S, neg, q: enc(
                        S, bor(ite(q, 0x7FFF, 0x7C00), ite(neg, 0x8000, 0)))))))
        m = (0x1FF << off) | (1 << nb) if bits == 9 else 0xFFFF << off
        return Spec(key, f, m)
    return mk


MAKERS['fimm9_low'] = half_imm(9, 20, None)
MAKERS['fimm9_high'] = half_imm(9, 30, None)
MAKERS['fimm16_low'] = half_imm(16, 20, None)
MAKERS['fimm16_high'] = half_imm(16, 36, None)


# ---------------------------------------------------------------- memory
def expect(S, ty):
    return S.req(S.ty(ty)).adv()


@kind('cbuf')
def _(key):
    def f(S):
        first = S.here()
        S = expect(S.req(S.s('c')).adv(), LBR)
        S = uint(S, 31, 34)
        S = expect(expect(S, RBR), LBR)
        v = S.imm()
        S = S.req(And(S.ty(IMM), inrange(v, -0x8000, 0x7FFF))).req((v & 3) == 0, first)
        S = S.bits(shl(field(v, 2, 14), 20)).adv()
        return expect(S, RBR)
    return Spec(key, f, (0x3FFF << 20) | (0x1F << 34))


def address(S, imm_offset=True, addr=20, size=24, shr_=0):
    S = expect(S, LBR)
    isreg = S.ty(REG)
    S0 = S

    def withreg(S):
        S = S.bits(shl(S.reg(), 8)).adv()
        return S.when(S.s('.reuse'), lambda S: S.reuse(1).adv())
    if imm_offset:
        zero_base = Or(Not(isreg), S0.reg() == RZ)
        S = S.when(isreg, withreg, lambda S: S.bits(0xFF << 8))

        def off(S):
            v = S.imm()
            if shr_:        # scaled offsets must be aligned
                S = S.req((v & ((1 << shr_) - 1)) == 0)
            S = S.req(inrange(v, ite(zero_base, 0, (-(1 << (size - 1))) & M64),
                              ite(zero_base, (1 << size) - 1, (1 << (size - 1)) - 1)))
            return S.bits(shl(field(v, shr_, size), addr)).adv()
        S = S.when(S.ty(IMM), off)
    else:
        S = S.when(isreg, withreg, lambda S: S.bits(0xFF << 8))
    return expect(S, RBR)


@kind('memory::address')
def _(key, imm_offset=True, addr=20, size=24, shr_=0):
    m = (0xFF << 8) | ((((1 << size) - 1) << addr) & M64 if imm_offset else 0)
    return Spec(key, lambda S: address(S, imm_offset, addr, size, shr_), m, 1)


@kind('ldc::address')
def _(key):
    def f(S):
        S = expect(S.req(S.s('c')).adv(), LBR)
        S = expect(uint(S, 31, 36), RBR)
        return address(S, True, 20, 16, 0)
    return Spec(key, f, (0xFFFF << 20) | (0x1F << 36) | (0xFF << 8), 1)


def attr(key, inner, mask, rmask):
    def f(S):
        S = expect(S.req(S.s('a')).adv(), LBR)
        return expect(inner(S), RBR)
    return Spec(key, f, mask, rmask)


@kind('ald::imm_attr')
def _(key):
    return attr(key, lambda S: uint(S, 1023, 20).bits(0xFF << 8), (1023 << 20) | (0xFF << 8), 0)


@kind('ald::patch_attr')
def _(key):
    def inner(S):
        S = gpr(S, 8)
        S = S.when(S.ty(PLUS), lambda S: S.adv())
        return sint(S, 11, 20)
    return attr(key, inner, (2047 << 20) | (0xFF << 8), 1)


@kind('ald::phys_attr')
def _(key):
    return attr(key, lambda S: gpr(S, 8), 0xFF << 8, 1)


# ---------------------------------------------------------------- control flow
@kind('flow_tests')
def _(key):
    def f(S):
        def cc(S):
            S = S.adv()
            found, idx = table(S, FLOW, '.')
            return S.req(found).bits(idx).adv()
        return S.when(S.s('CC'), cc, lambda S: S.bits(15))
    return Spec(key, f, 31)


@kind('label')
def _(key):
    lo, hi = -(1 << 23), (1 << 23) - 1

    def enc(S, absolute):
        # pc is a small non-negative address, so 64-bit wrap-around never lands back in range
        off = sub(sub(absolute, S.pc), 8)
        S = S.req(inrange(off, lo, hi))
        return S.bits(shl(off & 0x7FFFFF, 20)).bits(shl(field(off, 63, 1), 43)).adv()

    def f(S):
        return S.when(S.ty(IDENT), lambda S: enc(S.req(S.has_label()), S.label()),
                      lambda S: enc(S.req(S.ty(IMM)), S.imm()))
    return Spec(key, f, (0xFFFFFF << 20), uses_pc=True)


# ---------------------------------------------------------------- modifier groups
@kind('xmad::signs')
def _(key):
    def f(S):
        a = S.s('.S16')

        def two(S):
            S = S.adv()
            S = S.when(a, lambda S: S.bits(1 << 48))
            b = S.s('.S16')
            S = S.req(Or(b, S.s('.U16')))
            return S.when(b, lambda S: S.bits(1 << 49)).adv()
        return S.when(Or(a, S.s('.U16')), two)
    return Spec(key, f, 3 << 48)


@kind('f2f::rounding')
def _(key):
    same_names = {'.ROUND': 8, '.FLOOR': 9, '.CEIL': 10, '.TRUNC': 11, '.PASS': 3}

    def f(S):
        same = field(S.V, 8, 2) == field(S.V, 10, 2)

        def r1(S):
            hit = False
            v = 0
            for n, x in same_names.items():
                c = S.s(n)
                hit = Or(hit, c)
                v = ite(c, x, v)
            return S.when(hit, lambda S: S.bits(shl(v, 39)).adv())
        return S.when(same, r1, lambda S: dot_table(S, ("RN", "RM", "RP", "RZ"), 0, 39))
    return Spec(key, f, 15 << 39, acc_v=True, nxt_v=True, bits_v=True)


def signed_format(key, un, sn, addr, sbit, width):
    def f(S):
        uf, ui = table(S, un, '.')
        sf, si = table(S, sn, '.')
        return S.req(Or(uf, sf)).bits(ite(uf, 0, 1 << sbit)).bits(
            shl(ite(uf, ui, si), addr)).adv()
    return Spec(key, f, (3 << addr) | (1 << sbit))


MAKERS['f2i::int_format'] = lambda key: signed_format(
    key, ("INVALID0", "U16", "U32", "U64"), ("INVALID1", "S16", "S32", "S64"), 8, 12, 2)
MAKERS['i2f::int_format'] = lambda key: signed_format(
    key, ("U8", "U16", "U32", "U64"), ("S8", "S16", "S32", "S64"), 10, 13, 2)
MAKERS['i2i::format'] = lambda key, a, s: signed_format(
    key, ("U8", "U16", "U32"), ("S8", "S16", "S32"), a, s, 2)


def selector(key, at, ta, width, wide, shorts):
    def f(S):
        return S.when(field(S.V, ta, 3) == wide, lambda S: dot_table(S, shorts, 0, at),
                      lambda S: dot_table(S, ("B0", "B1", "B2", "B3"), 0, at))
    return Spec(key, f, 3 << at, acc_v=True, nxt_v=True, bits_v=True)


HS = ("H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3")
MAKERS['i2f::selector'] = lambda key: selector(key, 41, 10, 2, 1, HS)
MAKERS['i2i::selector'] = lambda key: selector(key, 41, 10, 2, 1, HS)


@kind('video::selector')
def _(key, at, ta):
    # the high bit of a byte selector is the low bit of the format: a selector whose bits the
    # format already uses is rejected.  Reads the 3 bits at ta (format and the bit above it).
    def pick(names):
        def f(S):
            found, idx = table(S, names, '.')
            return S.when(found, lambda S: S.req((S.V & shl(idx, at)) == 0).bits(shl(idx, at)).adv())
        return f

    def f(S):
        return S.when(field(S.V, ta, 3) == 2, pick(("H0", "H1")), pick(("B0", "B1", "B2", "B3")))
    return Spec(key, f, 3 << at, acc_v=True, nxt_v=True, bits_v=True, pre=lambda V: True)


@kind('ldg::size')
def _(key):
    names = SIZES + ("U",)

    def f(S):
        found, idx = table(S, names, '.')

        def hit(S):
            S = S.adv()
            S = S.when(idx == 7, lambda S: S.req(S.s('.128')).adv())
            return S.bits(shl(idx, 48))
        return S.when(found, hit, lambda S: S.bits(4 << 48))
    return Spec(key, f, 7 << 48)


@kind('atomic_size')
def _(key, addr):
    def f(S):
        found, idx = table(S, ("U32", "S32", "U64", "F32", "F16x2", "S64"), '.')

        def hit(S):
            S = S.adv()
            S = S.when(idx == 3, lambda S: S.req(S.s('.FTZ')).adv())
            S = S.when(Or(idx == 3, idx == 4), lambda S: S.req(S.s('.RN')).adv())
            return S.bits(shl(idx, addr))
        return S.when(found, hit)
    return Spec(key, f, 7 << addr)


@kind('video::src_format')
def _(key, addr, sbit):
    def f(S):
        sf, si = table(S, ("S8", "", "S16", "S32"), '.')
        uf, ui = table(S, ("U8", "", "U16", "U32"), '.')
        S = S.bits(shl(ite(sf, si, ite(uf, ui, 3)), addr)).bits(ite(uf, 0, 1 << sbit))
        return S.when(Or(sf, uf), lambda S: S.adv())
    return Spec(key, f, (3 << addr) | (1 << sbit))


@kind('video::imm_format')
def _(key, addr, sbit):
    return Spec(key, lambda S: dot_table(S, ("U16", "S16"), 1, sbit), 1 << sbit)


@kind('texs_mode')
def _(key, addr):
    # scratch encoding in the word, consumed by texs_type: lod in 2 bits, depth compare in the third
    def f(S):
        lz, ll = S.s('.LZ'), S.s('.LL')
        S = S.bits(ite(lz, 2 << addr, ite(ll, 1 << addr, 0)))
        S = S.when(Or(lz, ll), lambda S: S.adv())
        return S.when(S.s('.DC'), lambda S: S.bits(4 << addr).adv())
    return Spec(key, f, 7 << addr)


@kind('texs_type')
def _(key, addr):
    # (type, depth compare, lod 0 none / 1 LL / 2 LZ) -> 4-bit mode at 53
    modes = {('1D', 0, 2): 0, ('2D', 0, 0): 1, ('2D', 0, 2): 2, ('2D', 0, 1): 3, ('2D', 1, 0): 4,
             ('2D', 1, 1): 5, ('2D', 1, 2): 6, ('ARRAY_2D', 0, 0): 7, ('ARRAY_2D', 0, 2): 8,
             ('ARRAY_2D', 1, 2): 9, ('3D', 0, 0): 10, ('3D', 0, 2): 11, ('CUBE', 0, 0): 12,
             ('CUBE', 0, 1): 13}

    def f(S):
        p = field(S.V, addr, 3)
        S = S.setV(S.V & (M64 ^ (7 << addr)))
        ok = False
        bits = 0
        for (ty, dc, lod), m in modes.items():
            c = And(S.s(ty), p == (dc << 2 | lod))
            ok = Or(ok, c)
            bits = ite(c, m << 53, bits)
        return S.req(ok).bits(bits).adv()
    return Spec(key, f, 15 << 53, acc_v=True, bits_v=True,
                pre=lambda V: And((V & (1 << 56)) == 0, field(V, addr, 2) != 3))


@kind('tlds_type')
def _(key, addr):
    # scratch bits at addr: LL, AOFFI, MS
    def f(S):
        ll, ao, ms = (field(S.V, addr + i, 1) == 1 for i in range(3))
        S = S.setV(S.V & (M64 ^ (7 << addr)))
        no = And(Not(ao), Not(ms))
        cs = [(And(S.s('1D'), no), ite(ll, 1, 0)),
              (And(S.s('2D'), no), ite(ll, 5, 2)),
              (And(S.s('2D'), ao, Not(ms)), ite(ll, 12, 4)),
              (And(S.s('2D'), ms, Not(ao), Not(ll)), 6),
              (And(S.s('3D'), no), 7),
              (And(S.s('ARRAY_2D'), no), 8)]
        ok = False
        v = 0
        for c, m in cs:
            ok = Or(ok, c)
            v = ite(c, m, v)
        return S.req(ok).bits(shl(v, addr)).adv()
    return Spec(key, f, 15 << addr, acc_v=True, bits_v=True,
                pre=lambda V: (V & (8 << addr)) == 0)


@kind('texs_swizzle')
def _(key):
    one = ('R', 'G', 'B', 'A', 'RG', 'RA', 'GA', 'BA')
    two = ('RGB', 'RGA', 'RBA', 'GBA', 'RGBA')

    def f(S):
        single = field(S.V, 28, 8) == RZ

        def pick(names):
            return lambda S: dot_table(S, names, None, 50, '')
        return S.when(single, pick(one), pick(two))
    return Spec(key, f, 7 << 50, acc_v=True, bits_v=True)


from .sysregs import SYSREGS  # noqa: E402


@kind('s2r')
def _(key):
    def f(S):
        tid, cta = S.s('SR_TID'), S.s('SR_CTAID')

        def xyz(S):
            x = ite(S.s('.X'), 1, ite(S.s('.Y'), 2, ite(S.s('.Z'), 3, 0)))
            return Or(S.s('.X'), S.s('.Y'), S.s('.Z')), x

        def f_tid(S):
            S = S.adv()
            h, x = xyz(S)
            S = S.bits(shl(add(32, x), 20))
            return S.when(h, lambda S: S.adv())

        def f_cta(S):
            S = S.adv()
            h, x = xyz(S)
            return S.req(h).bits(shl(add(36, x), 20)).adv()

        def f_any(S):
            found, idx = S.table([n or None for n in SYSREGS])
            return S.req(found).bits(shl(idx, 20)).adv()
        return S.when(tid, f_tid, lambda S: S.when(cta, f_cta, f_any))
    return Spec(key, f, 0xFF << 20)


# ---------------------------------------------------------------- names
_cache = {}


def parse_args(s):
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    r = []
    for a in out:
        if re.fullmatch(r'-?\d+', a):
            r.append(int(a))
        elif a in ('true', 'false'):
            r.append(a == 'true')
        else:
            r.append(a)
    return r


def make(key):
    key = re.sub(r'\s*,\s*', ', ', key.strip())
    sp = _cache.get(key)
    if sp is None:
        m = re.fullmatch(r'([\w:]+)(?:<(.*)>)?', key)
        args = parse_args(m.group(2)) if m.group(2) else []
        sp = MAKERS[m.group(1)](key, *args)
        _cache[key] = sp
    return sp
