"""Labels: the context constructor collects exactly the labels of the text, each with the address of
the instruction that follows it, in the order of the text; find_label looks a name up in them.

For one arbitrary label definition X: ghost state says whether it was entered into the map.  Every
entry made is a definition of the text, its own name, its own address, further on than the one
before: with a map that keeps the first entry of a name, a name stands for its first definition."""
import z3

from vcg.engine import *
from vcg.engine import bv
from spec.tokens import PLINE, PCOL
from .tokmodel import TEXT, FNAME, TokLayer
from .containers import Containers, quot, div_axioms, next_axioms
from .lexer import CH, N, W, LIMIT, LexTheory, TextMeta, step, dec, alpha, errno_cell
from . import lexer

IDENT = z3.Function('run_name', W, W)           # end of the letters, digits and _ from a position
NL = z3.Function('next_line', W, W)             # start of the next line, or the end
PCF = z3.Function('address_at', W, W)           # address of the instruction that ends after a position
SCF = z3.Function('semicolons_before', W, W)
X = z3.BitVec('X', 64)
GHOST = 'labels entered'
LABEL = z3.Bool('X_is_a_label')


def name_char(c):
    return z3.Or(alpha(c), dec(c), c == ord('_'))


def bump(p):
    """the address after the one at p: one word in four holds the controls of three"""
    y = p + 8
    return z3.If(y & 31 == 0, y + 8, y)


def line_start(x):
    return z3.Or(x == 0, CH(x - 1) == ord('\n'))


def defs(x):
    c = CH(x)
    y = z3.simplify(x + 1)
    return [IDENT(x) == z3.If(name_char(c), IDENT(y), x),
            NL(x) == z3.If(c == 0, x, z3.If(c == ord('\n'), y, NL(y))),
            PCF(y) == z3.If(c == ord(';'), bump(PCF(x)), PCF(x))]


def bounds(x):
    """proved in lemmas()"""
    return [z3.And(z3.UGE(IDENT(x), x), z3.ULE(IDENT(x), N)),
            z3.And(z3.UGE(NL(x), x), z3.ULE(NL(x), N), z3.Implies(CH(x) != 0, z3.UGT(NL(x), x))),
            z3.And(z3.UGE(PCF(x), 8), z3.ULE(PCF(x), 16 * x + 8)),
            z3.Or(PCOL(NL(x)) == 0, NL(x) == N),
            z3.Implies(z3.And(line_start(X), z3.ULT(x, X), z3.ULE(X, N)), z3.UGE(X, NL(x)))]


def unfold(x):
    x = z3.simplify(x)
    return [z3.Implies(z3.ULE(x, N), a) for a in step(x) + defs(x) + bounds(x)]


def is_label(x):
    return z3.And(z3.ULT(x, N), line_start(x), alpha(CH(x)), CH(IDENT(x)) == ord(':'))


class Text(TextMeta):
    def load(self, eng, st, p, n, ty):
        x = poff(p)
        x = z3.BitVecVal(x, 64) if isinstance(x, int) else x
        if n != 1:
            raise Unsupported('wide read of the text')
        st = eng.oblige(st, z3.ULE(x, N), eng.oname('memory safety', 'read outside the text'))
        if st is None:
            return []
        x = z3.simplify(x)
        for a in unfold(x):
            st.assume(a, True)
        return [(st, CH(x))]


class LabelTheory(LexTheory):
    def candidates(self, eng, S0, S, M, hv):
        out = []
        ps = [k for k in hv if self.pos(eng, S0, k) is not None]
        for k in ps:
            q0 = z3.simplify(self.pos(eng, S0, k))
            for a in unfold(q0):
                S0.assume(a, True)
            for nm, f in (('position inside the text', lambda q: z3.ULE(q, N)),
                          ('position moves forward', lambda q, q0=q0: z3.UGE(q, q0)),
                          ('at a line start or at the end', lambda q: z3.Or(PCOL(q) == 0, q == N)),
                          ('a line start or the end', lambda q: z3.Or(line_start(q), q == N)),
                          ('name unchanged', lambda q, q0=q0: IDENT(q) == IDENT(q0)),
                          ('next line unchanged', lambda q, q0=q0: NL(q) == NL(q0)),
                          ('address unchanged', lambda q, q0=q0: PCF(q) == PCF(q0)),
                          ('a character is left', lambda q: CH(z3.simplify(q)) != 0)):
                out.append((nm + str(k), lambda st, k=k, f=f: self.with_pos(eng, st, k, f)))
        for key in hv:
            oid, off, n = key
            c0 = self.cell(eng, S0, key)
            for k in ps:
                if n == 4:
                    for nm, f in (('line', PLINE), ('column', PCOL)):
                        out.append(('%s of the position %s' % (nm, (key, k)), lambda st, key=key, k=k, f=f: self.with_val(
                            eng, st, key, k, lambda v, q: v == f(q))))
                if oid == GHOST and off == 0:
                    out.append(('entered exactly the labels before %s' % (k,), lambda st, key=key, k=k: self.with_val(
                        eng, st, key, k, lambda v, q: (v == 1) == z3.And(LABEL, z3.ULT(X, q)))))
                elif oid == GHOST:
                    out.append(('entries lie before %s' % (k,), lambda st, key=key, k=k: self.with_val(
                        eng, st, key, k, lambda v, q: z3.ULE(v, q))))
                elif n == 8:
                    out.append(('address of the position %s' % ((key, k),), lambda st, key=key, k=k: self.with_val(
                        eng, st, key, k, lambda v, q: v == PCF(q))))
            if n == 1:
                out.append(('flag is 0 or 1 %s' % (key,), lambda st, key=key: self.with_val(eng, st, key, None, lambda v, q: z3.ULE(v, 1))))
            if isinstance(c0, int) or is_bv(c0):
                out.append(('unchanged %s' % (key,), lambda st, key=key, c0=c0, n=n: self.with_val(eng, st, key, None, lambda v, q: v == bv(c0, 8 * n))))
        return out

    def after_invariants(self, eng, S0, S, M, hv):
        for key in hv:
            q = self.pos(eng, S, key)
            if q is not None:
                for a in unfold(q):
                    S.assume(a, True)

    def prepare_back(self, eng, S0, S, b, M, hv):
        for key in hv:
            for st in (S, b):
                q = self.pos(eng, st, key)
                if q is not None:
                    q = z3.simplify(q)
                    for a in unfold(q) + unfold(NL(q)):
                        b.assume(a, True)
                    if z3.is_app_of(q, z3.Z3_OP_BADD):
                        for a in unfold(q - 1):
                            b.assume(a, True)


MAP = r'^(?:.* )?std::unordered_map<std::__cxx11::basic_string<char.*, long, .*>::'


class LabelMap:
    """the map, as the places of its entries"""

    def __init__(self):
        self.nm = lambda x: 'labels: ' + x

    def install(self, eng):
        eng.contracts += [
            (by_name(MAP + r'unordered_map\(\)$'), self.ctor),
            (by_name(MAP + r'~unordered_map\(\)$'), c_nop),
            (by_name(MAP + r'insert\(std::pair<std::__cxx11::basic_string<.*> const, long> ?(&&|const&)\)$'), self.insert),
            (by_name(MAP + r'(try_emplace|emplace)<.*>\('), self.emplace),
            (by_name(r'^std::pair<std::__cxx11::basic_string<.*> const, long>::pair<.*>\('), self.pair),
            (by_name(r'^std::pair<std::__cxx11::basic_string<.*> const, long>::~pair\(\)$'), c_nop),
        ]

    def ctor(self, eng, st, args, rt):
        st.mem[GHOST] = Obj('bytes', 16, 'labels entered')
        eng.put(st, GHOST, 0, 1, 0)
        eng.put(st, GHOST, 8, 8, 0)
        return [(st, None)]

    def pair(self, eng, st, args, rt):
        dst, s, v = args[:3]
        st, p = eng.load(st, s, ('p',))[0]
        st, n = eng.load(st, padd(s, 8), ('i', 64))[0]
        st, w = eng.load(st, v, ('i', 64))[0]
        eng.put(st, dst.o, dst.c, 8, p)
        eng.put(st, dst.o, dst.c + 8, 8, n)
        eng.put(st, dst.o, dst.c + 32, 8, w)
        return [(st, None)]

    def insert(self, eng, st, args, rt):
        return self.enter(eng, st, args[1], padd(args[1], 32))

    def emplace(self, eng, st, args, rt):
        if len(args) != 3:
            raise Unsupported('emplace')
        return self.enter(eng, st, args[1], args[2])

    def enter(self, eng, st, s, v):
        st, p = eng.load(st, s, ('p',))[0]
        st, n = eng.load(st, padd(s, 8), ('i', 64))[0]
        st, w = eng.load(st, v, ('i', 64))[0]
        if not isinstance(p, P) or p.o != TEXT:
            raise Unsupported('label that is no part of the text')
        x = poff(p)
        x = z3.simplify(z3.BitVecVal(x, 64) if isinstance(x, int) else x)
        for a in unfold(x) + unfold(IDENT(x)) + unfold(x - 1):
            st.assume(a, True)
        for what, c in (('only definitions are entered', is_label(x)),
                        ('a label is entered under its name', bv(n, 64) == IDENT(x) - x),
                        ('a label stands for the address of the next instruction', bv(w, 64) == PCF(x)),
                        ('labels are entered in the order of the text', z3.UGE(x, bv(eng.load(st, P(GHOST, 8), ('i', 64))[0][1], 64)))):
            st = eng.oblige(st, c, self.nm(what))
            if st is None:
                return []
        old = eng.load(st, P(GHOST, 0), ('i', 8))[0][1]
        st = eng.store(st, P(GHOST, 0), ('i', 8), z3.If(x == X, z3.BitVecVal(1, 8), bv(old, 8)))[0]
        st = eng.store(st, P(GHOST, 8), ('i', 64), x + 1)[0]
        node = st.alloc(56, 'label')
        eng.put(st, node.o, 40, 8, w)
        r = eng.fresh('new', 8)
        st.assume(z3.ULE(r, 1))
        return [(st, (node, r))]


def lemmas(eng):
    nm = lambda s: 'lemma: ' + s
    x = z3.BitVec('x', 64)
    st = State()
    st.assume(z3.ULT(N, LIMIT))
    st.assume(z3.ULE(x, N))
    for a in step(x) + defs(x):
        st.assume(a)
    # downwards: the position after x satisfies the bounds
    y = x + 1
    for i, what in ((0, 'names end inside the text'), (1, 'lines end inside the text'), (4, 'no line starts inside a line'), (3, 'a next line is a line start')):
        s = st.clone()
        ih = bounds(y)[i] if i != 1 else z3.And(z3.UGE(NL(y), y), z3.ULE(NL(y), N))
        s.assume(z3.Implies(z3.ULT(x, N), ih))
        if i == 4:
            # X - 1 is x when X is the next position
            s.assume(z3.Implies(X == y, line_start(X) == (CH(x) == ord('\n'))))
        eng.oblige(s, bounds(x)[i], nm(what))
    s = st.clone()
    s.assume(bounds(x)[2])
    eng.oblige(s, z3.Implies(z3.ULT(x, N), bounds(y)[2]), nm('addresses stay small'))
    s = State()
    s.assume(z3.And(x == 0, PCF(x) == 8))
    eng.oblige(s, bounds(x)[2], nm('addresses stay small'))
    # a position is a line start exactly when its column is 0
    s = st.clone()
    eng.oblige(s, z3.Implies(z3.ULT(x, N), (PCOL(y) == 0) == (CH(x) == ord('\n'))), nm('column 0 is a line start'))
    # addresses and instruction numbers: address k is 8*(k + k/3 + 1)
    k = z3.BitVec('k', 64)
    q, r = quot(3)
    s = State()
    s.assume(z3.ULT(k, 1 << 30))
    for a in div_axioms(3, k) + next_axioms(3, k):
        s.assume(a)
    adr = lambda v: 8 * (v + q(v) + 1)
    # the residue of an address within its group of 32 bytes, by induction
    s.assume(adr(k) & 31 == 8 * (r(k) + 1))
    eng.oblige(s.clone(), bump(adr(k)) == adr(k + 1), nm('the address after instruction k is the address of instruction k+1'))
    s.assume(bump(adr(k)) == adr(k + 1))
    eng.oblige(s, adr(k + 1) & 31 == 8 * (r(z3.simplify(k + 1)) + 1), nm('address within a group'))


def verify_labels(env, fname, unroll=None, deadline=None):
    lay = env.lay
    eng, tl, st = lexer.start(env, deadline, unroll)
    eng.theory = LabelTheory()
    st.mem[TEXT].meta = Text()
    Containers(lay).install(eng)
    LabelMap().install(eng)
    nm = lambda x: 'labels: ' + x
    if unroll is None:
        lemmas(eng)
    zero = z3.BitVecVal(0, 64)
    st.assume(z3.And(PCF(zero) == 8, PLINE(zero) == 0, PCOL(zero) == 0), True)
    for x in (zero, X, IDENT(X), z3.simplify(X - 1)):
        for a in unfold(x):
            st.assume(a, True)
    if unroll is not None:
        st.assume(z3.ULE(N, unroll - 2))
        for i in range(unroll):
            for a in unfold(z3.BitVecVal(i, 64)):
                st.assume(a, True)
    st.assume(LABEL == is_label(X), True)
    ctx = st.alloc(lay['size_context'], 'context')
    outs = eng.call(st, Fn(fname), [ctx, P(FNAME, 0), P(TEXT, 0)], ('v',))
    for kind, z, info in eng.terminals:
        eng.oblige(z, 0, nm('collecting labels never fails'))
    for z, _ in outs:
        z = eng.oblige(z, z3.Implies(LABEL, bv(eng.load(z, P(GHOST, 0), ('i', 8))[0][1], 8) == 1), nm('every definition is entered'))
        if z is None:
            continue
        O = lambda f: lay['off_context_' + f]
        for what, off, n, want in (('position', O('text'), 8, P(TEXT, 0)), ('text', O('text_begin'), 8, P(TEXT, 0)), ('file name', O('filename'), 8, P(FNAME, 0)),
                                   ('line', O('line'), 4, 0), ('column', O('column'), 4, 0), ('address', O('pc'), 8, 0),
                                   ('program type', O('type') + 4, 1, 0), ('.dksh', O('is_dksh'), 1, 0), ('entry point', O('entrypoint') + 32, 1, 0),
                                   ('second entry point', O('second_entrypoint') + 32, 1, 0), ('registers', O('num_gprs'), 4, 8),
                                   ('local memory', O('local_mem_size'), 4, 0), ('second registers', O('second_num_gprs'), 4, 0),
                                   ('early tests', O('early_fragment_tests'), 1, 0), ('post depth', O('post_depth_coverage'), 1, 0),
                                   ('per sample', O('persample_invocation'), 1, 0), ('block', O('block_dimensions'), 4, 1),
                                   ('block', O('block_dimensions') + 4, 4, 1), ('block', O('block_dimensions') + 8, 4, 1),
                                   ('shared memory', O('shared_mem_size'), 4, 0), ('barriers', O('num_barriers'), 4, 0)):
            v = eng.load(z, padd(ctx, off), ('p',) if isinstance(want, P) else ('i', 8 * n))[0][1]
            if isinstance(want, P):
                c = int(isinstance(v, P) and v.o == want.o) and (bv(poff(v), 64) == 0)
            else:
                c = bv(v, 8 * n) == want
            z = eng.oblige(z, c, nm('initial state: ' + what))
            if z is None:
                break
    if not outs:
        eng.failures.append(Obligation(nm('terminates'), 'unknown'))
    return eng


def exact_labels(env, fname, deadline=None):
    """texts of at most 4, then at most 6 characters"""
    e = verify_labels(env, fname, 6, deadline)
    if any(f.status == 'refuted' for f in e.failures):
        return e
    return verify_labels(env, fname, 8, deadline)


# ---------------------------------------------------------------- lookup
def verify_find(env, fname, deadline=None):
    lay = env.lay
    eng = Engine(env.mod, 20000)
    eng.deadline = deadline
    install_base(eng)
    Containers(lay).install(eng)
    nm = lambda x: 'lookup: ' + x
    st = State()
    tl = TokLayer(lay)
    tl.init(eng, st)
    ctx = tl.new_ctx(eng, st, z3.BitVec('u', 64), z3.BitVec('pc', 64))
    at, n = z3.BitVec('word', 64), z3.BitVec('word_len', 64)
    has, val = z3.Bool('has'), z3.BitVec('value', 64)
    eng.contracts += [(by_name(r'^fatal_error\('), tl.c_fatal_plain)]

    def key_ok(st, p, s):
        st, d = eng.load(st, s, ('p',))[0]
        st, l = eng.load(st, padd(s, 8), ('i', 64))[0]
        if not isinstance(d, P) or d.o != TEXT:
            raise Unsupported('name looked up')
        c = z3.And(bv(poff(d), 64) == at, bv(l, 64) == n, z3.BoolVal(isinstance(p, P) and p.o == ctx.o and p.c == lay['off_context_labels']))
        return eng.oblige(st, c, nm('the name given is looked up'))

    def find(eng, st, args, rt):
        st = key_ok(st, args[0], args[1])
        if st is None:
            return []
        a, b = eng.split(st, has)
        out = []
        if a is not None:
            node = a.alloc(56, 'label')
            eng.put(a, node.o, 40, 8, val)
            out.append((a, node))
        if b is not None:
            out.append((b, 0))
        return out

    def contains(eng, st, args, rt):
        st = key_ok(st, args[0], args[1])
        return [] if st is None else [(st, z3.If(has, z3.BitVecVal(1, rt[1]), z3.BitVecVal(0, rt[1])))]

    def get(eng, st, args, rt):
        st = key_ok(st, args[0], args[1])
        if st is not None:
            st = eng.oblige(st, has, eng.oname('never aborts', 'label looked up that is not there'))
        if st is None:
            return []
        node = st.alloc(8, 'address')
        eng.put(st, node.o, 0, 8, val)
        return [(st, node)]
    eng.contracts += [(by_name(MAP + r'find\('), find), (by_name(MAP + r'c?end\(\)'), lambda e, s, a, r: [(s, 0)]),
                      (by_name(MAP + r'(contains|count)\('), contains), (by_name(MAP + r'at\('), get)]
    st0 = st.clone()
    outs = eng.call(st, Fn(fname), [ctx, n, P(TEXT, 0, ((1, at),))], ('s', [('i', 64), ('i', 8)]))
    for kind, z, info in eng.terminals:
        eng.oblige(z, 0, nm('returns a result'))
    for z, r in outs:
        v, on = r
        z = eng.oblige(z, z3.And((bv(on, 8) == 1) == has, z3.ULE(bv(on, 8), 1), z3.Implies(has, bv(v, 64) == val)), nm('the address of the label, if there is one'))
        if z is not None:
            tl.ctx_frame(eng, st0, z, ctx, nm('context frame'))
    if not outs:
        eng.failures.append(Obligation(nm('returns a result'), 'unknown'))
    return eng
