"""Output layout: nxas::assemble against "ceil(n/3) groups of a control word and three instructions",
for every number n of instructions and all instruction words, control fields and reuse flags."""
import z3

from vcg.engine import *
from vcg.engine import bv
from .tokmodel import TEXT, FNAME, TEXT_META
from .containers import *

W = z3.BitVecSort(64)
IV = z3.Function('insn_word', W, W)
IS = z3.Function('insn_control', W, z3.BitVecSort(32))
IR = z3.Function('insn_reuse', W, z3.BitVecSort(32))
OUT = z3.Function('binary_word', W, W)
NOP = 0x50B0000000070F00
NMAX = 1 << 28


def lane(n, i, a):
    c = z3.ZeroExt(32, IS(i)) | (z3.ZeroExt(32, IR(i)) << 17)
    return z3.If(z3.ULT(i, n), c, z3.BitVecVal(0x7E0, 64)) << (21 * a)


def spec_word(n, j):
    g, l = z3.LShR(j, 2), j & 3
    ctl = lane(n, g * 3, 0) | lane(n, g * 3 + 1, 1) | lane(n, g * 3 + 2, 2)
    i = g * 3 + l - 1
    return z3.If(l == 0, ctl, z3.If(z3.ULT(i, n), IV(i), z3.BitVecVal(NOP, 64)))


def groups(x):
    """number of output words for x instructions: 4*ceil(x/3)"""
    q, r = quot(3)
    return z3.If(r(x) == 0, q(x) * 4, q(x) * 4 + 4)


def fill(x):
    """number of output words written after x instructions, before padding"""
    q, r = quot(3)
    return z3.If(r(x) == 0, q(x) * 4, q(x) * 4 + r(x) + 1)


class LayoutTheory(VecTheory):
    def __init__(self, eng, ops_meta, n):
        super().__init__()
        self.n = n
        self.symbolic = not z3.is_bv_value(n)
        self.k = None          # ghost: (object, offset) of the number of instructions parsed
        self.element = None    # element i of the instruction list after k instructions
        g = z3.BitVec('g', 62)
        self.Js = [z3.Concat(g, z3.BitVecVal(l, 2)) for l in range(4)]   # an arbitrary index

    def template(self, st, oid, meta, name):
        """contents of a vector inside a loop: (length, element)"""
        if meta.es == 8:
            L = self.eng.fresh('len', 64)
            return L, lambda i: spec_word(self.n, i)
        return meta.n, lambda i: self.element(self.count(st), i)

    def count(self, st):
        return b64(st.mem[self.k].cells[0][1])

    def havoc(self, eng, S0, S, M, samples):
        self.eng = eng
        hv = self.hv = {}
        lens = {}
        # scalars first: contents depend on the ghost counter
        for key in M:
            oid, off, n = key
            if off is None:
                continue
            o = S.wobj(oid)
            c = o.cells.get(off)
            vals = [v for v in samples.get(key, []) if v is not None]
            if c is None:
                eng.clear(o, off, n)
                continue
            v = c[1]
            if isinstance(v, P):
                continue
            if not (isinstance(v, int) or is_bv(v)) or any(not isinstance(x, int) and not is_bv(x) for x in vals):
                raise Unsupported('loop variable kind')
            nv = eng.fresh('h', 8 * c[0])
            o.cells[off] = (c[0], nv)
            hv[key] = nv
        for key in M:
            oid, off, n = key
            if off is not None:
                continue
            m = S0.mem[oid].meta
            if not isinstance(m, VMeta):
                raise Unsupported('abstract object modified in a loop')
            L, elem = self.template(S, oid, m, '')
            set_vec(eng, S, oid, VMeta(m.es, L, elem))
            if not isinstance(L, int):
                S.assume(z3.ULT(L, BIG))      # checked wherever a length is set
            hv[key] = L
        for key in M:
            oid, off, n = key
            if off is None:
                continue
            c = S.mem[oid].cells.get(off)
            if c is None or not isinstance(c[1], P) or key in hv:
                continue
            p = c[1]
            m = S.mem[p.o].meta if p.o in S.mem else None
            m0 = S0.mem[p.o].meta if p.o in S0.mem else None
            if not isinstance(m, VMeta) or not self.is_end(p, m0):
                raise Unsupported('pointer variable in a loop: %s+%d %r' % (S.mem[oid].name, off, p))
            S.wobj(oid).cells[off] = (8, self.end(p.o, m))
            hv[key] = None
        return hv

    def end(self, oid, m):
        return padd(P(oid, 0), m.n * m.es if isinstance(m.n, int) else m.n * z3.BitVecVal(m.es, 64))

    def is_end(self, p, m):
        e = self.end(p.o, m)
        return same(fold(b64(poff(p)) - b64(poff(e))), 0)

    def prefer_abstract(self, fn, header):
        """loops that parse: the contract decides by constants when they end"""
        return any(ins[0] in ('call', 'invoke') and ins[3][0] == 'g' and 'parse_instruction' in ins[3][1]
                   for b in fn.loops()[header] for ins in fn.block(b)) and self.symbolic

    def check_vecs(self, eng, st, M, hv):
        """the contents a loop assumed are those it establishes (at an arbitrary index)"""
        for key in M:
            oid, off, n = key
            if off is not None:
                c = st.mem[oid].cells.get(off)
                if key in hv and hv[key] is None and not self.is_end(c[1], st.mem[c[1].o].meta):
                    raise Unsupported('end of a vector in a loop')
                continue
            m = st.mem[oid].meta
            for J in self.Js:
                if not self.holds(eng, st, m, J, spec_word(self.n, J) if m.es == 8 else self.element(self.count(st), J)):
                    raise Unsupported('contents of a vector in a loop')

    def holds(self, eng, st, m, J, want):
        c = z3.Implies(z3.ULT(J, b64(m.n)), m.elem(J) == want)
        return eng.check(st, z3.Not(c)) == 'unsat'

    def ints(self, eng, st, M):
        return [k for k in M if k[1] is not None and k[2] == 8 and k in self.hv and not isinstance(self.val(eng, st, k), P)]

    def val(self, eng, st, key):
        oid, off, n = key
        o = st.mem.get(oid)
        c = o.cells.get(off) if o is not None else None
        if c is None or c[0] != n:
            return None
        return c[1]

    def length(self, st, oid):
        return b64(st.mem[oid].meta.n)

    def candidates(self, eng, S0, S, M, hv):
        self.hv = hv
        self.check_vecs(eng, S0, M, hv)
        out = []
        q, r = quot(3)
        n = self.n
        xs = self.ints(eng, S0, M)
        ghost = (self.k, 0, 8)
        vecs = [k[0] for k in M if k[1] is None and S0.mem[k[0]].meta.es == 8]

        def on(k, f):
            def g(st):
                v = self.val(eng, st, k)
                if v is None or isinstance(v, P):
                    return None
                v = b64(v)
                for a in div_axioms(3, v):
                    st.assume(a, True)
                return f(st, v)
            return g
        for k in xs:
            out.append(('at most the number of instructions', on(k, lambda st, v: z3.ULE(v, n))))
            out.append(('less than three above the number of instructions', on(k, lambda st, v: z3.ULE(v, n + 2))))
            out.append(('at most the number of groups', on(k, lambda st, v: z3.ULE(v * 4, groups(n)))))
            out.append(('below 2^40', on(k, lambda st, v: z3.ULT(v, 1 << 40))))
            out.append(('multiple of three', on(k, lambda st, v: r(v) == 0)))
            if k != ghost and ghost in M:
                out.append(('counts the instructions parsed', on(k, lambda st, v: v == self.count(st))))
            for oid in vecs:
                out.append(('words written for the instructions so far', on(k, lambda st, v, oid=oid: self.length(st, oid) == fill(v))))
                out.append(('four words per group', on(k, lambda st, v, oid=oid: self.length(st, oid) == v * 4)))
                out.append(('index of the next word', on(k, lambda st, v, oid=oid: self.length(st, oid) == v)))
        for oid in vecs:
            out.append(('at most the words of the program', lambda st, oid=oid: z3.ULE(self.length(st, oid), groups(n))))
        return out

    def after_invariants(self, eng, S0, S, M, hv):
        self.hv = hv
        for k in self.ints(eng, S, M):
            v = self.val(eng, S, k)
            if v is not None:
                for a in div_axioms(3, b64(v)) + next_axioms(3, b64(v)):
                    S.assume(a, True)

    def prepare_back(self, eng, S0, S, b, M, hv):
        self.hv = hv
        for k in self.ints(eng, b, M):
            v = self.val(eng, b, k)
            if v is not None and not isinstance(v, int):
                for a in div_axioms(3, v):
                    b.assume(a, True)
        self.check_vecs(eng, b, M, hv)

    def progress(self, eng, S, b, hv, fn):
        for key in hv:
            if key[1] is None or key[2] != 8:
                continue
            q, p = self.val(eng, S, key), self.val(eng, b, key)
            if q is None or p is None or isinstance(p, P) or isinstance(q, P):
                continue
            c = z3.And(z3.UGT(b64(p), b64(q)), z3.ULE(b64(p), 1 << 40))
            if eng.check(b, z3.Not(c)) == 'unsat':
                eng.oblige(b.clone(), c, 'terminates: a bounded counter grows (%s)' % fn)
                return
        raise Unsupported('no measure for a loop in ' + fn)


def exact_assemble(env, fname, deadline=None, upto=16):
    """every program of at most upto instructions"""
    e = None
    for k in range(upto + 1):
        e = verify_assemble(env, fname, k, deadline)
        if e.failures:
            break
    return e


def verify_assemble(env, fname, size=None, deadline=None):
    """size: None for every n, or a number of instructions (exact, loops run out)"""
    lay = env.lay
    eng = Engine(env.mod, 2000)
    eng.fresh_ms = 40000
    eng.deadline = deadline
    n = z3.BitVec('n', 64) if size is None else z3.BitVecVal(size, 64)
    th = eng.theory = LayoutTheory(eng, None, n)
    th.eng = eng
    install_base(eng)
    Containers(lay).install(eng)
    ES = lay['size_opcode']
    st = State()
    st.mem[TEXT] = Obj('plug', None, 'source text', meta=TEXT_META)
    st.mem[FNAME] = Obj('bytes', None, 'file name', default=lambda i: eng.fresh('fn', 8))
    k = st.alloc(8, 'number of instructions parsed')
    st.mem[k.o].cells[0] = (8, 0)
    th.k = k.o
    flags = st.alloc(3, 'ghosts')
    for i in range(3):
        st.mem[flags.o].cells[i] = (1, 0)          # context built, all parsed, binary made
    N = z3.BitVec('text_len', 64)
    # n is the number of semicolons of the text.  parse_instruction consumes exactly one when it
    # returns true and none are left when it returns false ('consumes one semicolon', 'ends only at
    # the end of the text', 'only the end of the text is no token'), so it is also the number of
    # instructions read before it first returns false.
    semis = n
    if size is None:
        st.assume(z3.ULE(n, NMAX))
        for a in div_axioms(3, n):
            st.assume(a, True)
    code = st.alloc(32, 'source')
    st.mem[code.o].cells[0] = (8, P(TEXT, 0))
    st.mem[code.o].cells[8] = (8, N)
    ret = st.alloc(24, 'result')
    where = {}
    nm = lambda x: 'layout: ' + x

    def element(kk, i):
        w = cat(i)
        return less(i, kk, lambda: w, lambda: z3.BitVecVal(0, 8 * ES))

    def cat(i):
        parts = {lay['off_opcode_value']: IV(i), lay['off_opcode_reuse']: IR(i), lay['off_opcode_sched']: IS(i)}
        out, at = [], 0
        for off in sorted(parts):
            if off != at:
                out.append(z3.BitVecVal(0, 8 * (off - at)))
            out.append(parts[off])
            at = off + parts[off].size() // 8
        if at != ES:
            out.append(z3.BitVecVal(0, 8 * (ES - at)))
        return z3.Concat(list(reversed(out)))
    th.element = element
    flag = lambda s, i: s.mem[flags.o].cells[i][1]

    def setflag(s, i, v=1):
        s.wobj(flags.o).cells[i] = (1, v)

    def c_ctx(eng, st, args, rt):
        p = args[2]
        st = eng.oblige(st, int(isinstance(p, P) and p.o == TEXT and same(poff(p), 0) and flag(st, 0) == 0), nm('one context reads the whole text'))
        if st is None:
            return []
        st = eng.oblige(st, int(isinstance(args[1], P) and args[1].o == FNAME), nm('diagnostics carry the file name'))
        if st is None:
            return []
        where['ctx'] = args[0]
        setflag(st, 0)
        return [(st, None)]

    def c_count(eng, st, args, rt):
        # std::ranges::count(code, ';')
        xs = [a for a in args if isinstance(a, P) and not (a.o in st.mem and st.mem[a.o].size == 1 and a is args[0])]
        whole = any(same(a, code) for a in xs) or (
            any(a.o == TEXT and same(poff(a), 0) for a in xs) and any(a.o == TEXT and same(poff(a), N) for a in xs))
        for a in args[1:]:
            v = None
            if isinstance(a, P) and a.o != TEXT and not same(a, code) and not a.t:
                c = st.mem[a.o].cells.get(a.c) if a.o in st.mem else None
                v = c[1] if c and c[0] == 1 else None
            if whole and v == ord(';'):
                return [(st, semis if size is None else size)]
        raise Unsupported('count of other characters')

    def c_parse(eng, st, args, rt):
        c, op = args
        st = eng.oblige(st, int(same(c, where.get('ctx')) and flag(st, 0) == 1), nm('instructions are read from the context'))
        if st is None:
            return []
        r = eng.load(st, op, ('i', 64))
        want = [(lay['off_opcode_value'], 64), (lay['off_opcode_reuse'], 32), (lay['off_opcode_sched'], 32)]
        for off, w in want:
            r = eng.load(st, padd(op, off), ('i', w))
            if len(r) != 1:
                raise Unsupported('instruction record')
            st, v = r[0]
            st = eng.oblige(st, bv(v, w) == 0, nm('instruction records start empty'))
            if st is None:
                return []
        kk = th.count(st)
        st = eng.oblige(st, int(same(flag(st, 1), 0)) if isinstance(flag(st, 1), int) else flag(st, 1) == 0, nm('nothing is parsed after the end'))
        if st is None:
            return []
        more, done = eng.split(st, z3.ULT(kk, n))
        out = []
        if more is not None:
            sts = [more]
            for (off, w), f in zip(want, (IV, IR, IS)):
                x = f(z3.simplify(kk))
                if w == 32:
                    lim = 15 if f is IR else (1 << 17) - 1
                    for s in sts:
                        s.assume(z3.ULE(x, lim), True)
                sts = [z for s in sts for z in eng.store(s, padd(op, off), ('i', w), x)]
            for s in sts:
                s.wobj(k.o).cells[0] = (8, fold(kk + 1))
                out.append((s, 1))
        if done is not None:
            setflag(done, 1)
            out.append((done, 0))
        return out
    J = z3.BitVec('J', 64)

    def c_binary(eng, st, args, rt):
        dst, c, p, m = args
        st = eng.oblige(st, int(same(c, where.get('ctx'))), nm('the container is made by the context'))
        if st is None:
            return []
        st = eng.oblige(st, int(flag(st, 1) == 1 and flag(st, 2) == 0) if isinstance(flag(st, 1), int) else 0,
                        nm('the output is made once, after the whole text is parsed'))
        if st is None:
            return []
        if not isinstance(p, P) or not isinstance(st.mem[p.o].meta, VMeta):
            raise Unsupported('code handed to the container')
        meta = st.mem[p.o].meta
        i0, r = meta.index(eng, st, p)
        L = b64(m)
        st = eng.oblige(st, L == groups(n) if size is None else L == (size + 2) // 3 * 4, nm('four words per group of three instructions'))
        if st is None:
            return []
        st = eng.oblige(st, z3.And(i0 == 0, z3.ULE(L, b64(meta.n))), eng.oname('memory safety', 'words handed to the container'))
        if st is None:
            return []
        if size is None:
            for J in th.Js:
                st = eng.oblige(st, z3.Implies(z3.ULT(J, L), meta.elem(J) == spec_word(n, J)), nm('control words, instructions and padding'))
                if st is None:
                    return []
        else:
            for j in range((size + 2) // 3 * 4):
                jj = z3.BitVecVal(j, 64)
                st = eng.oblige(st, meta.elem(jj) == spec_word(n, jj), nm('control words, instructions and padding'))
                if st is None:
                    return []
        if st is None:
            return []
        put_vec(eng, st, dst, 'binary', 8, z3.BitVec('binary_len', 64), lambda i: OUT(i))
        st.assume(z3.ULT(z3.BitVec('binary_len', 64), BIG), True)
        setflag(st, 2)
        return [(st, None)]
    eng.contracts[:0] = [
        (by_name(r'^context::context\(char const\*, char const\*\)$'), c_ctx),
        (by_name(r'^context::~context\(\)$'), c_nop),
        (by_name(r'std::ranges::__count_fn::operator\(\)<|^std::iterator_traits<.*std::count<'), c_count),
        (by_name(r'^parse_instruction\(context&, opcode&\)$'), c_parse),
        (by_name(r'^context::binary\('), c_binary),
    ]
    if size is not None:
        eng.sym_iter_limit = 40
    outs = eng.call(st, Fn(fname), [ret, code, P(FNAME, 0)], ('v',))
    for kind, z, info in eng.terminals:
        eng.oblige(z, 0, nm('refuses nothing by itself'))
    for z, _ in outs:
        z = eng.oblige(z, int(flag(z, 2) == 1), nm('returns what the context makes of the code'))
        if z is None:
            continue
        oid, m = vec_of(eng, z, ret)
        eng.oblige(z, z3.And(b64(m.n) == z3.BitVec('binary_len', 64), z3.Implies(z3.ULT(J, b64(m.n)), m.elem(J) == OUT(J))),
                   nm('returns what the context makes of the code'))
    if not outs:
        eng.failures.append(Obligation(nm('terminates'), 'unknown'))
    return eng
