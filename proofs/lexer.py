"""Tokenizer: context::tokenize against the lexical grammar, for every text and position.

The text is a function CH of the position with its terminator at N.  The grammar is written with
run functions (end of the longest run of a character class from a position), which are total by
recursion on the position; loops are proved by invariants over the same functions."""
import z3

from vcg.engine import *
from vcg.engine import bv
from vcg.fp import EXT, is_nan
from spec.tokens import PLINE, PCOL, SC
from .tokmodel import TEXT, FNAME, TokLayer

W = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
CH = z3.Function('char_at', W, B8)
N = z3.BitVec('text_len', 64)
RV = {b: z3.Function('strtoll%d' % b, W, W) for b in (0, 10)}
RE = {b: z3.Function('strtoll%d_end' % b, W, W) for b in (0, 10)}
OV = {b: z3.Function('strtoll%d_range' % b, W, z3.BoolSort()) for b in (0, 10)}
FV = z3.Function('strtof', W, z3.BitVecSort(32))
FE = z3.Function('strtof_end', W, W)
HEXIN = z3.Function('hex_in_number', W, z3.BoolSort())
START = z3.Function('token_start', W, W)
ERANGE = 34
LIMIT = 1 << 29


def isin(c, s):
    return z3.Or([c == ord(x) for x in s])


def dec(c):
    return z3.And(z3.UGE(c, ord('0')), z3.ULE(c, ord('9')))


def alpha(c):
    return z3.Or(z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('z'))), z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('Z'))))


OPCH = '+-~|[]@,;'
OPTY = {'+': 6, '-': 7, '~': 8, '|': 9, '[': 10, ']': 11, '@': 12, ';': 13, ',': 14}


def sep(c):
    return z3.Or(isin(c, ' \t\r\n.' + OPCH), c == 0)


HEXCH = 'AaBbCcDdEeFfXx'
CLS = {
    'blank': lambda c: isin(c, ' \t\r\n'),
    'digits': dec,
    'word': lambda c: z3.Not(sep(c)),
    'number': lambda c: z3.Or(dec(c), isin(c, '+-' + HEXCH)),
}
RUN = {k: z3.Function('run_' + k, W, W) for k in CLS}


def step(x):
    """the text and the position functions at position x, for x <= N"""
    c = CH(x)
    nl = c == ord('\n')
    y = z3.simplify(x + 1)
    return [(c == 0) == (x == N),
            z3.Implies(c != 0, z3.And(z3.ULE(y, N), z3.ULT(x, y))),
            PLINE(y) == z3.If(nl, PLINE(x) + 1, PLINE(x)),
            PCOL(y) == z3.If(nl, z3.BitVecVal(0, 32), PCOL(x) + z3.If(c == ord('\t'), z3.BitVecVal(4, 32), z3.BitVecVal(1, 32))),
            z3.ULE(PLINE(x), LIMIT), z3.ULE(PCOL(x), (1 << 31) - 4),
            z3.Implies(c != 0, z3.And(z3.ULT(PLINE(x), LIMIT), z3.ULE(PCOL(x), (1 << 31) - 8)))]


def runs(x):
    """definitions of the run functions at x"""
    c = CH(x)
    y = z3.simplify(x + 1)
    out = [RUN[k](x) == z3.If(f(c), RUN[k](y), x) for k, f in CLS.items()]
    out.append(HEXIN(x) == z3.And(CLS['number'](c), z3.Or(isin(c, HEXCH), HEXIN(y))))
    return out


def bounds(x):
    return [z3.And(z3.UGE(f(x), x), z3.ULE(f(x), N)) for f in RUN.values()]


def unfold(x):
    return [z3.Implies(z3.ULE(x, N), a) for a in step(x) + runs(x) + bounds(x)]


class Tk:
    """the token that starts at s (nothing blank at s, not a label)"""

    def __init__(self, s):
        c = CH(s)
        c1 = CH(s + 1)
        self.pos = [s, s + 1, s + 2, s + 3]
        self.none = c == 0
        signed = z3.And(isin(c, '+-'), dec(c1))
        self.op = z3.And(isin(c, OPCH), z3.Not(signed))
        pred = isin(c, '!Pp')
        neg = c == ord('!')
        badneg = z3.And(neg, z3.Not(isin(c1, 'Pp')))
        i = z3.If(neg, s + 2, s + 1)
        ci = z3.If(neg, CH(s + 2), c1)
        cj = z3.If(neg, CH(s + 3), CH(s + 2))
        isT = isin(ci, 'Tt')
        self.pred = z3.And(pred, z3.Not(badneg), z3.Not(sep(ci)), z3.Or(isT, dec(ci)), sep(cj))
        self.prange = z3.And(self.pred, z3.Not(isT), z3.UGT(ci, ord('6')))
        self.pidx = z3.If(isT, z3.BitVecVal(7, 32), z3.ZeroExt(24, ci) - ord('0'))
        self.pneg = z3.If(neg, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        self.pend = i + 1
        self.perr = z3.And(pred, z3.Or(badneg, sep(ci)))
        num = z3.And(z3.Or(dec(c), signed), c1 != ord('D'))
        e1 = RUN['number'](s)
        dot = CH(e1) == ord('.')
        e2 = RUN['digits'](e1 + 1)
        e = z3.If(dot, e2, e1)
        self.pos += [e1, e1 + 1, e2]
        sepe = z3.If(dot, sep(CH(e2)), sep(CH(e1)))
        self.flt = z3.And(num, dot)
        self.int = z3.And(num, z3.Not(dot))
        self.nerr = z3.And(num, z3.Or(z3.And(dot, HEXIN(s)), z3.Not(sepe), z3.And(dot, FE(s) != e),
                                      z3.And(z3.Not(dot), z3.Or(OV[0](s), RE[0](s) != e))))
        self.nend = e
        self.s = s
        r = c == ord('R')
        rz = z3.And(r, c1 == ord('Z'))
        d = RUN['digits'](s + 1)
        self.pos += [d]
        rd = z3.And(r, z3.Not(rz), z3.Not(sep(c1)), sep(CH(d)))
        v = RV[10](s + 1)
        self.reg = z3.Or(rz, rd)
        self.rval = z3.If(rz, z3.BitVecVal(255, 8), z3.Extract(7, 0, v))
        self.rend = z3.If(rz, s + 2, d)
        self.rerr = z3.Or(z3.And(rz, z3.Not(sep(CH(s + 2)))), z3.And(r, sep(c1)),
                          z3.And(rd, z3.Or(RE[10](s + 1) != d, v < 0, v >= 255)))
        self.err = z3.Or(self.perr, self.prange, self.nerr, self.rerr)
        other = z3.Or(self.none, self.op, self.pred, self.perr, num, self.reg, z3.And(r, sep(c1)))
        self.word = z3.Not(other)
        self.wend = RUN['word'](s + 1)
        self.pos += [self.wend - 1, self.wend]
        self.label = z3.And(self.word, CH(self.wend - 1) == ord(':'))
        ty = z3.BitVecVal(1, 32)
        b = lambda n: z3.BitVecVal(n, 32)
        optype = b(0)
        for ch, n in OPTY.items():
            optype = z3.If(c == ord(ch), b(n), optype)
        self.type = z3.If(self.none, b(0), z3.If(self.op, optype, z3.If(self.pred, b(3), z3.If(
            num, z3.If(dot, b(5), b(4)), z3.If(self.reg, b(2), b(1))))))
        self.end = z3.If(self.none, s, z3.If(self.op, s + 1, z3.If(self.pred, self.pend, z3.If(
            num, self.nend, z3.If(self.reg, self.rend, self.wend)))))


def start_of(x):
    """start of the first token at or after x: blanks and label words are skipped"""
    return START(RUN['blank'](x))


def start_unfold(s, tk=None):
    k = tk or Tk(s)
    ax = [START(s) == z3.If(k.label, start_of(k.wend), s)]
    for y in k.pos:
        ax += unfold(z3.simplify(y))
    return ax


class TextMeta:
    """the source text as a function of the position"""

    def load(self, eng, st, p, n, ty):
        x = poff(p)
        x = z3.BitVecVal(x, 64) if isinstance(x, int) else x
        if n != 1:
            raise Unsupported('wide read of the text')
        st = eng.oblige(st, z3.ULE(x, N), eng.oname('memory safety', 'read outside the text'))
        if st is None:
            return []
        x = z3.simplify(x)
        for a in step(x) + runs(x):
            st.assume(a, True)
        return [(st, CH(x))]


class LexTheory(Theory):
    def cell(self, eng, st, key):
        oid, off, n = key
        o = st.mem.get(oid)
        if o is None:
            return None
        c = o.cells.get(off)
        if c is None or c[0] != n:
            try:
                return eng.load_raw(st, o, off, n)
            except Unsupported:
                return None
        return c[1]

    def pos(self, eng, st, key):
        v = self.cell(eng, st, key)
        if not isinstance(v, P) or v.o != TEXT:
            return None
        x = poff(v)
        return z3.BitVecVal(x, 64) if isinstance(x, int) else x

    def havoc(self, eng, S0, S, M, samples):
        hv = {}
        for key in M:
            oid, off, n = key
            if off is None:
                raise Unsupported('abstract object modified in a loop')
            o = S.wobj(oid)
            c = o.cells.get(off)
            vals = [v for v in samples.get(key, []) if v is not None]
            if c is None:
                eng.clear(o, off, n)
                continue
            v = c[1]
            if isinstance(v, int) or is_bv(v):
                if any(not isinstance(x, int) and not is_bv(x) for x in vals):
                    eng.clear(o, off, n)
                    continue
                nv = eng.fresh('h', 8 * c[0])
            elif isinstance(v, P):
                if any(not isinstance(x, P) or x.o != v.o for x in vals):
                    eng.clear(o, off, n)
                    continue
                nv = P(v.o, 0, ((1, eng.fresh('q', 64)),))
            else:
                eng.clear(o, off, n)
                continue
            o.cells[off] = (c[0], nv)
            hv[key] = nv
        return hv

    def prefer_abstract(self, fn, header):
        return ' std::' not in ' ' + short(fn.demangled)

    def at_head(self, eng, S, hv):
        S.gh['heads'] = S.gh.get('heads', ()) + tuple(q for q in (self.pos(eng, S, k) for k in hv) if q is not None)

    def candidates(self, eng, S0, S, M, hv):
        out = []
        ps = [k for k in hv if self.pos(eng, S0, k) is not None]
        q0s = {}
        for k in ps:
            q0 = self.pos(eng, S0, k)
            q0s[k] = q0
            for a in unfold(z3.simplify(q0)):
                S0.assume(a, True)
            out.append(('position inside the text', lambda st, k=k: self.with_pos(eng, st, k, lambda q: z3.ULE(q, N))))
            out.append(('position moves forward', lambda st, k=k, q0=q0: self.with_pos(eng, st, k, lambda q: z3.UGE(q, q0))))
            out.append(('a character is left', lambda st, k=k: self.with_pos(eng, st, k, lambda q: CH(z3.simplify(q)) != 0)))
            out.append(('line unchanged', lambda st, k=k, q0=q0: self.with_pos(eng, st, k, lambda q: PLINE(q) == PLINE(q0))))
            for name, f in list(RUN.items()) + [('token start', start_of)]:
                for d in (0, 1):
                    if f is start_of and d:
                        continue
                    out.append(('%s of position+%d unchanged' % (name, d), lambda st, k=k, q0=q0, f=f, d=d: self.with_pos(
                        eng, st, k, lambda q: f(q + d if d else q) == f(q0 + d if d else q0))))
        for key in hv:
            oid, off, n = key
            c0 = self.cell(eng, S0, key)
            for k in ps:
                q0 = q0s[k]
                if n == 4:
                    for nm, f in (('line', PLINE), ('column', PCOL)):
                        out.append(('%s of the position' % nm, lambda st, key=key, k=k, f=f: self.with_val(
                            eng, st, key, k, lambda v, q: v == f(q))))
                if n == 1 and (isinstance(c0, int) or is_bv(c0)):
                    b0 = bv(c0, 8) != 0
                    out.append(('hex flag', lambda st, key=key, k=k, b0=b0, q0=q0: self.with_val(
                        eng, st, key, k, lambda v, q: z3.Or(v != 0, HEXIN(q)) == z3.Or(b0, HEXIN(q0)))))
            if n == 1:
                out.append(('flag is 0 or 1', lambda st, key=key: self.with_val(eng, st, key, None, lambda v, q: z3.ULE(v, 1))))
            if isinstance(c0, int) or is_bv(c0):
                out.append(('unchanged', lambda st, key=key, c0=c0, n=n: self.with_val(eng, st, key, None, lambda v, q: v == bv(c0, 8 * n))))
        return out

    def with_pos(self, eng, st, k, f):
        q = self.pos(eng, st, k)
        return None if q is None else f(q)

    def with_val(self, eng, st, key, k, f):
        v = self.cell(eng, st, key)
        if isinstance(v, int):
            v = z3.BitVecVal(v, 8 * key[2])
        if not is_bv(v):
            return None
        q = None
        if k is not None:
            q = self.pos(eng, st, k)
            if q is None:
                return None
        return f(v, q)

    def prepare_back(self, eng, S0, S, b, M, hv):
        for key in hv:
            q, p = self.pos(eng, S, key), self.pos(eng, b, key)
            if p is None or q is None:
                continue
            for a in unfold(z3.simplify(q)) + unfold(z3.simplify(p)):
                b.assume(a, True)
            if not z3.is_bv_value(z3.simplify(p - q)):
                # not one character further: a word was skipped
                for x in b.gh.get('heads', ()):
                    if not x.eq(q):
                        for a in start_unfold(x):
                            b.assume(a, True)

    def progress(self, eng, S, b, hv, fn):
        for key in hv:
            q, p = self.pos(eng, S, key), self.pos(eng, b, key)
            if q is not None and p is not None:
                eng.oblige(b.clone(), z3.UGT(p, q), 'terminates: every iteration moves on in the text (%s)' % fn)
                return
        raise Unsupported('no measure for a loop in ' + fn)


def c_strtoll(eng, st, args, rt):
    p, ep, base = args
    if not isinstance(p, P) or p.o != TEXT or base not in RV:
        raise Unsupported('strtoll')
    x = poff(p)
    st = eng.oblige(st, z3.ULE(x, N), eng.oname('memory safety', 'number read outside the text'))
    if st is None:
        return []
    st.assume(z3.And(z3.UGE(RE[base](x), x), z3.ULE(RE[base](x), N)), True)
    if isinstance(ep, P):
        st = eng.store(st, ep, ('p',), P(TEXT, 0, ((1, RE[base](x)),)))[0]
    e = errno_cell(st)
    old = eng.load(st, e, ('i', 32))[0][1]
    st = eng.store(st, e, ('i', 32), z3.If(OV[base](x), z3.BitVecVal(ERANGE, 32), bv(old, 32)))[0]
    return [(st, RV[base](x))]


def c_strtof(eng, st, args, rt):
    p, ep = args
    if not isinstance(p, P) or p.o != TEXT:
        raise Unsupported('strtof')
    x = poff(p)
    st = eng.oblige(st, z3.ULE(x, N), eng.oname('memory safety', 'number read outside the text'))
    if st is None:
        return []
    c, c1 = CH(x), CH(x + 1)
    st.assume(z3.And(z3.UGE(FE(x), x), z3.ULE(FE(x), N)), True)
    st.assume(z3.Implies(z3.Or(dec(c), z3.And(isin(c, '+-'), dec(c1))), z3.Not(is_nan(FV(x), 32))), True)
    if isinstance(ep, P):
        st = eng.store(st, ep, ('p',), P(TEXT, 0, ((1, FE(x)),)))[0]
    st = eng.store(st, errno_cell(st), ('i', 32), eng.fresh('errno', 32))[0]
    return [(st, FV(x))]


def errno_cell(st):
    if 'errno' not in st.mem:
        st.mem['errno'] = Obj('bytes', 4, 'errno', default='z')
    return P('errno', 0)


def c_find(eng, st, args, rt):
    """find in a constant string: the position of the first occurrence, or the end"""
    b, n, ch = find_args(eng, st, args)
    if b is None:
        return NotImplemented
    e = z3.BitVecVal(len(n), 64)
    for i in reversed(range(len(n))):
        e = z3.If(bv(ch, 8) == n[i], z3.BitVecVal(i, 64), e)
    return [(st, padd(b, fold(e)))]


def find_args(eng, st, args):
    no = None, None, None
    a = [x for x in args]
    try:
        if len(a) == 3 and isinstance(a[0], P) and isinstance(a[1], P) and isinstance(a[2], P):
            # (iterator, iterator, char const&) or (functor, range&, char const&)
            if a[0].o == a[1].o and cbytes(eng, st, a[0], 1) is not None and not a[1].t:
                s = cbytes(eng, st, a[0], a[1].c - a[0].c)
                return (a[0], s, eng.load(st, a[2], ('i', 8))[0][1]) if s is not None else no
            n = eng.load(st, a[1], ('i', 64))[0][1]
            p = eng.load(st, padd(a[1], 8), ('p',))[0][1]
            s = cbytes(eng, st, p, n) if isinstance(n, int) else None
            if s is not None:
                return p, s, eng.load(st, a[2], ('i', 8))[0][1]
    except Unsupported:
        pass
    return no


def install(eng, tl):
    install_base(eng)
    eng.contracts += [(by_name(r'std::ranges::__find_fn::operator\(\)<std::(__cxx11::)?basic_string_view<char'), c_find)]
    eng.contracts += [
        (by_name(r'^fatal_error\(token const&, char const\*, \.\.\.\)$'), tl.c_fatal),
        (by_name(r'^fatal_error\(char const\*, \.\.\.\)$'), tl.c_fatal_plain),
        (by_name(r'^(__isoc23_)?strto(ll|l)$'), c_strtoll),
        (by_name(r'^strtof$'), c_strtof),
        (by_name(r'^__errno_location$'), lambda e, s, a, r: [(s, errno_cell(s))]),
    ]


def start(env, deadline, unroll, timeout_ms=300):
    lay = env.lay
    eng = Engine(env.mod, timeout_ms)
    eng.deadline = deadline
    tl = TokLayer(lay)
    install(eng, tl)
    eng.theory = LexTheory()
    eng.sym_iter_limit = 1
    eng.lib_iter_limit = 64
    eng.lazy_leaves = True
    eng.fresh_ms = 20000
    eng.force_unroll = unroll
    st = State()
    tl.init(eng, st)
    st.mem[TEXT] = Obj('plug', None, 'source text', meta=TextMeta())
    st.mem['errno'] = Obj('bytes', 4, 'errno')
    eng.put(st, 'errno', 0, 4, z3.BitVec('errno0', 32))
    st.assume(z3.ULT(N, LIMIT))
    return eng, tl, st


def lemmas(eng):
    """the inductive steps behind the bounds assumed at each unfolding"""
    x = z3.BitVec('x', 64)
    st = State()
    st.assume(z3.ULT(N, LIMIT))
    st.assume(z3.ULE(x, N))
    st.assume((CH(x) == 0) == (x == N))
    nm = lambda s: 'lemma: ' + s
    for k, f in CLS.items():
        s = st.clone()
        s.assume(RUN[k](x) == z3.If(f(CH(x)), RUN[k](x + 1), x))
        s.assume(z3.Implies(z3.ULT(x, N), z3.And(z3.UGE(RUN[k](x + 1), x + 1), z3.ULE(RUN[k](x + 1), N))))
        eng.oblige(s, z3.And(z3.UGE(RUN[k](x), x), z3.ULE(RUN[k](x), N)), nm('runs end inside the text'))
    s = st.clone()
    for a in step(x)[2:4]:
        s.assume(a)
    e = lambda v: z3.ZeroExt(32, v)
    s.assume(z3.And(z3.ULE(e(PLINE(x)), x), z3.ULE(e(PCOL(x)), 4 * x)))
    eng.oblige(s.clone(), z3.And([a for a in step(x)[4:]] + [step(x)[1]]), nm('line and column stay small'))
    eng.oblige(s.clone(), z3.UGE(PLINE(x + 1), PLINE(x)), nm('lines do not decrease'))
    s.assume(z3.ULT(x, N))
    eng.oblige(s.clone(), z3.And(z3.ULE(e(PLINE(x + 1)), x + 1), z3.ULE(e(PCOL(x + 1)), 4 * (x + 1))),
               nm('line and column are bounded by the position'))
    s = st.clone()
    k = Tk(x)
    for y in k.pos:
        for a in unfold(z3.simplify(y)):
            s.assume(a, True)
    s.assume(k.label)
    eng.oblige(s, z3.And(z3.UGT(k.wend, x), z3.ULE(k.wend, N)), nm('skipped words are not empty (the token start is well defined)'))


def semicolon_lemmas(eng):
    """a token holds a semicolon only if it is one; blanks and skipped words hold none; the end of
    the text comes after all of them.  Each by induction over the text, from its end."""
    x = z3.BitVec('x', 64)
    st = State()
    st.assume(z3.ULT(N, LIMIT))
    st.assume(z3.ULE(x, N))
    nm = lambda s: 'lemma: ' + s
    one = lambda c: z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    count = lambda y: z3.Implies(z3.ULT(y, N), SC(y + 1) == SC(y) + one(CH(y) == ord(';')))
    for k, f in CLS.items():
        s = st.clone()
        s.assume((CH(x) == 0) == (x == N))
        s.assume(RUN[k](x) == z3.If(f(CH(x)), RUN[k](x + 1), x))
        s.assume(count(x))
        s.assume(z3.Implies(z3.ULT(x, N), SC(RUN[k](x + 1)) == SC(x + 1)))
        eng.oblige(s, SC(RUN[k](x)) == SC(x), nm('runs of characters hold no semicolon'))
    k = Tk(x)
    s = st.clone()
    for y in k.pos:
        y = z3.simplify(y)
        for a in unfold(y):
            s.assume(a, True)
        s.assume(z3.Implies(z3.ULE(y, N), count(y)), True)
        for r in RUN.values():
            s.assume(z3.Implies(z3.ULE(y, N), SC(r(y)) == SC(y)), True)
    s.assume(z3.And(SC(RUN['blank'](k.wend)) == SC(k.wend)), True)
    e = s.clone()
    s.assume(START(x) == z3.If(k.label, start_of(k.wend), x))
    s.assume(SC(start_of(k.wend)) == SC(RUN['blank'](k.wend)))
    eng.oblige(s, SC(START(x)) == SC(x), nm('skipped words hold no semicolon'))
    e.assume(z3.Not(z3.Or(k.err, k.label)))
    for cond, end in ((k.none, x), (k.op, x + 1), (k.word, k.wend), (k.reg, k.rend), (z3.And(k.pred, CH(x) == ord('!')), x + 3),
                      (z3.And(k.pred, CH(x) != ord('!')), x + 2), (k.int, k.nend), (k.flt, k.nend)):
        y = e.clone()
        y.assume(cond)
        eng.oblige(y, SC(end) == SC(x) + one(k.type == 13), nm('a token holds a semicolon exactly if it is one'))
    e.assume(k.type == 0)
    eng.oblige(e, k.end == N, nm('only the end of the text is no token'))


def digit_value(c):
    """value of a digit in base 16, 99 if it is none"""
    z = lambda e: z3.ZeroExt(56, e)
    return z3.If(dec(c), z(c) - 48, z3.If(z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('f'))), z(c) - 87,
                 z3.If(z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('F'))), z(c) - 55, z3.BitVecVal(99, 64))))


def concrete(n):
    """the functions of the text on texts of at most n characters, and what strtoll does there"""
    V = lambda i: z3.BitVecVal(i, 64)
    out = [z3.ULE(N, n)]
    chs = [CH(V(i)) if i <= n else z3.BitVecVal(0, 8) for i in range(n + 4)]
    for i in range(n + 1):
        out += unfold(V(i)) + [z3.Implies(z3.ULE(V(i), N), START(V(i)) == z3.If(Tk(V(i)).label, start_of(Tk(V(i)).wend), V(i)))]
        out.append(z3.Implies(z3.UGT(V(i), N), CH(V(i)) == 0))
    for base in (0, 10):
        for i in range(n + 1):
            def digits(j, b, acc, got, nodig):
                """(end, value) of the digits from j on; nodig: the end when there are none"""
                if j > n:
                    return (V(j) if got else nodig), acc
                d = digit_value(chs[j])
                e, v = digits(j + 1, b, acc * b + d, True, nodig)
                return z3.If(z3.ULT(d, b), e, V(j) if got else nodig), z3.If(z3.ULT(d, b), v, acc)
            j0 = i
            cases = []
            for sign in (None, '+', '-'):
                j = i + (1 if sign else 0)
                c = chs[j] if j < len(chs) else z3.BitVecVal(0, 8)
                none = V(i)
                ten = digits(j, 10, V(0), False, none)
                if base == 0:
                    x = chs[j + 1] if j + 1 < len(chs) else z3.BitVecVal(0, 8)
                    h = chs[j + 2] if j + 2 < len(chs) else z3.BitVecVal(0, 8)
                    hexa = digits(j + 2, 16, V(0), False, none)
                    octa = digits(j, 8, V(0), False, none)
                    isx = z3.And(c == ord('0'), isin(x, 'xX'), z3.ULT(digit_value(h), 16))
                    e = z3.If(isx, hexa[0], z3.If(c == ord('0'), octa[0], ten[0]))
                    v = z3.If(isx, hexa[1], z3.If(c == ord('0'), octa[1], ten[1]))
                else:
                    e, v = ten
                cases.append((sign, e, -v if sign == '-' else v))
            e, v = cases[0][1], cases[0][2]
            for sign, e2, v2 in cases[1:]:
                e, v = z3.If(chs[i] == ord(sign), e2, e), z3.If(chs[i] == ord(sign), v2, v)
            blank = isin(chs[i], ' \t\n\v\f\r')
            out += [z3.Implies(z3.Not(blank), z3.And(RE[base](V(i)) == e, RV[base](V(i)) == v)), z3.Not(OV[base](V(i)))]
    return out


def verify_tokenize(env, fname, unroll=None, deadline=None):
    """unroll: the same contract on texts of at most that many characters, from their start"""
    lay = env.lay
    eng, tl, st = start(env, deadline, None if unroll is None else unroll + 2)
    u, pc = z3.BitVec('u', 64), z3.BitVec('pc', 64)
    if unroll is None:
        lemmas(eng)
        semicolon_lemmas(eng)
    else:
        u = z3.BitVecVal(0, 64)
        for a in concrete(unroll):
            st.assume(a, True)
        st.assume(z3.And(PLINE(u) == 0, PCOL(u) == 0))
    st.assume(z3.ULE(u, N))
    ctx = tl.new_ctx(eng, st, u, pc)
    ret = st.alloc(lay['size_token'], 'token')
    st0 = st.clone()
    outs = eng.call(st, Fn(fname), [ret, ctx], ('v',))
    nm = lambda x: 'tokens: ' + x

    def prep(z):
        """-> (state, start of the token, its description)"""
        if unroll is not None:
            x = start_of(u)
            for v in range(unroll + 1):
                y = z.clone()
                y.assume(x == v)
                if eng.check(y) == 'sat':
                    yield y, z3.BitVecVal(v, 64), Tk(z3.BitVecVal(v, 64))
            return
        cands = list(z.gh.get('heads', ())) + [u]
        cands += [RUN['blank'](x) for x in cands]
        for x in cands:
            y = z.clone()
            for a in unfold(x) + bounds(u):
                y.assume(a, True)
            if eng.check(y, start_of(u) != START(x)) != 'unsat':
                continue
            k = Tk(x)
            for a in start_unfold(x, k):
                y.assume(a, True)
            if len(cands) == 1 or eng.check(y, start_of(u) != x) == 'unsat':
                yield y, x, k
                return
        y = z.clone()
        eng.oblige(y, start_of(u) == cands[0], nm('token starts after blanks and labels'))
    n = 0
    for kind, z, info, s, k in [(a, z, c, s, k) for a, b, c in eng.terminals for z, s, k in prep(b)]:
        n += 1
        z = eng.oblige(z, k.err, nm('refuses only malformed lexemes'))
        if z is None:
            continue
        if kind != 'fatal' or info is None:
            eng.oblige(z, 0, nm('diagnostic carries a position'))
            continue
        eng.oblige(z, z3.And(bv(info[0], 32) == PLINE(s), bv(info[1], 32) == PCOL(s)), nm('diagnostic points at the lexeme'))
    for z, s, k in [x for b, _ in outs for x in prep(b)]:
        n += 1
        z = eng.oblige(z, z3.Not(k.err), nm('accepts only well-formed lexemes'))
        if z is None:
            continue

        def cell(o, off, m):
            return bv(eng.load(z, padd(o, off), ('i', 8 * m))[0][1], 8 * m)
        D = lay['off_token_data']
        ty = cell(ret, lay['off_token_type'], 4)
        end = tl.pos_of(z, ctx)
        for what, c in (('kind', ty == k.type),
                        ('position', z3.And(cell(ret, lay['off_token_line'], 4) == PLINE(s), cell(ret, lay['off_token_column'], 4) == PCOL(s))),
                        ('line and column follow the text', z3.And(cell(ctx, lay['off_context_line'], 4) == PLINE(end),
                                                                   cell(ctx, lay['off_context_column'], 4) == PCOL(end))),
                        ('known kind', z3.ULE(ty, 14))):
            z = eng.oblige(z, c, nm(what))
            if z is None:
                break
        if z is None:
            continue
        fnm = eng.load(z, padd(ret, lay['off_token_filename']), ('p',))[0][1]
        z = eng.oblige(z, int(isinstance(fnm, P) and fnm.o == FNAME and not fnm.c and not fnm.t), nm('file name'))
        if z is None:
            continue
        # payload, by kind
        for name, cond, kend in (('none', k.none, s), ('operator', k.op, s + 1), ('word', k.word, k.wend), ('register', k.reg, k.rend),
                                 ('predicate', k.pred, k.pend), ('integer', k.int, k.nend), ('float', k.flt, k.nend)):
            y = z.clone()
            y.assume(cond)
            if eng.check(y) == 'unsat':
                continue
            y = eng.oblige(y, end == kend, nm('consumes exactly the lexeme'))
            if y is None:
                continue
            y = eng.oblige(y, z3.And(z3.UGE(s, u), z3.UGE(end, s), z3.BoolVal(True) if name == 'none' else z3.UGT(end, s)), nm('moves on'))
            if y is None:
                continue
            if name == 'word':
                p = eng.load(y, padd(ret, D + 8), ('p',))[0][1]
                if not isinstance(p, P) or p.o != TEXT:
                    eng.oblige(y, 0, nm('word is a part of the text'))
                    continue
                ln = bv(eng.load(y, padd(ret, D), ('i', 64))[0][1], 64)
                eng.oblige(y, z3.And(bv(poff(p), 64) == s, ln == kend - s, ln != 0, z3.ULT(ln, 1 << 31)), nm('word is the lexeme'))
            elif name == 'register':
                eng.oblige(y, bv(eng.load(y, padd(ret, D), ('i', 8))[0][1], 8) == k.rval, nm('register number'))
            elif name == 'predicate':
                a = bv(eng.load(y, padd(ret, D), ('i', 32))[0][1], 32)
                b = bv(eng.load(y, padd(ret, D + 4), ('i', 32))[0][1], 32)
                eng.oblige(y, z3.And(a == k.pidx, b == k.pneg, z3.ULE(a, 7), z3.ULE(b, 1)), nm('predicate index and negation'))
            elif name == 'integer':
                eng.oblige(y, bv(eng.load(y, padd(ret, D), ('i', 64))[0][1], 64) == RV[0](s), nm('integer value'))
            elif name == 'float':
                eng.oblige(y, z3.And(bv(eng.load(y, padd(ret, D), ('i', 64))[0][1], 64) == EXT(FV(s)), z3.Not(is_nan(FV(s), 32))),
                           nm('float value'))
        tl.ctx_frame(eng, st0, z, ctx, nm('context frame'))
    if n == 0:
        eng.failures.append(Obligation(nm('terminates normally'), 'unknown'))
    return eng
