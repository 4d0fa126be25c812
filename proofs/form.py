"""Form selection: parse_instruction against 'the first form, in table order, that accepts',
one unit per mnemonic, with the operand functions and the annotation loop by contract."""
import re
import z3

from vcg.engine import *
from vcg.engine import bv
from spec import tokens as T
from spec.tokens import TY, W0, NEXT, TLINE, TCOL, BYTE, SC, semi, SymS, valid, lift
from spec.ops import zb, w64
from spec.operands import make
from .tokmodel import TokLayer, err_handle, StrMeta, TEXT
from .loops import TokTheory, tok_term, ctx_term
from .sched import word

W = z3.BitVecSort(64)
B = z3.BoolSort()
# annotations from a position on: accepted, control field, position after, blamed position
SA = z3.Function('sched_ok', W, B)
SV = z3.Function('sched_field', W, z3.BitVecSort(32))
SE = z3.Function('sched_end', W, W)
SF = z3.Function('sched_blame', W, W)
OE = z3.Function('directive_end', W, W)


class OpUF:
    def __init__(self, f):
        a = (W, W, W)
        self.acc = z3.Function('acc:' + f, *a, B)
        self.v = z3.Function('word:' + f, *a, W)
        self.r = z3.Function('reuse:' + f, *a, z3.BitVecSort(32))
        self.t = z3.Function('end:' + f, *a, W)
        self.ft = z3.Function('blame:' + f, *a, W)


class FormTheory(TokTheory):
    merge_drop = ('defs',)

    def __init__(self, lay, tl, case, reach):
        super().__init__(lay, tl)
        self.case = case
        self.reach = reach

    plain = False      # no directives: nothing to abstract

    def prefer_abstract(self, fn, header):
        return not self.plain and self.reach(fn, header)

    def merge_at(self, fn, header):
        return not short(fn.demangled).startswith('std::') and not self.reach(fn, header)

    def merge_key(self, eng, oid, o):
        return o.size == self.lay['size_context']

    def merge_same(self, eng, oid, o, n):
        k = self.lay['off_context_text']
        a, b = o.cells.get(k), n.cells.get(k)
        if self.prefix is not None:
            return (a is None) == (b is None)
        return (a is None and b is None) or (a is not None and b is not None and same(a[1], b[1]))

    # ---- lemmas at the joins: what is known after the first k forms were rejected
    def path_lemma(self, eng, st, sts, c):
        k = st.gh.get('rows', 0)
        self.cut = None
        pre = self.prefix and self.prefix(st, k + 1)
        if not pre:
            return c
        rej, defs, _, _ = pre
        for s in sts:
            if not eng.implied(s, rej, *defs):
                return c
        self.cut = pre
        st.assume(rej)
        return z3.BoolVal(True)

    def joined(self, eng, st, sts, cells):
        # a read position that depends on how the forms were rejected is any position from here on
        k = self.lay['off_context_text']
        for oid, o in list(st.mem.items()):
            if o.kind != 'plug' and self.merge_key(eng, oid, o) and k not in o.cells and all(
                    oid in s.mem and k in s.mem[oid].cells for s in sts):
                self.tl.set_pos(eng, st, P(oid, 0, ()), NEXT(eng.fresh('leftpos', 64)))
                cells = [c for c in cells if not (c[0] == oid and c[1] in (self.lay['off_context_line'], self.lay['off_context_column']))]
        if self.cut is None:
            return
        st.gh['rows'] = st.gh.get('rows', 0) + 1
        _, defs, bs, bh = self.cut
        for oid, off, vs in cells:
            n, v = st.mem[oid].cells[off]
            for x in (bs, bh):
                if x.size() == 8 * n and len(vs) == len(sts) and all(
                        eng.implied(s, bv(y[1], 8 * n) == x, *defs) for s, y in zip(sts, vs)):
                    st.wobj(oid).cells[off] = (n, x)
                    if n == 8 and all(eng.implied(s, bv(y[1], 64) != 0) for s, y in zip(sts, vs)):
                        st.assume(x != 0)
                    break
            else:
                if not self.plain:
                    st.wobj(oid).cells[off] = (n, eng.fresh('left', 8 * n))

    prefix = None
    base = None

    def at_merge(self, eng, st):
        """the guard's bits in the form the specification writes them"""
        if self.base is None or st.gh.get('norm') or st.gh.get('w') is None:
            return
        st.gh['norm'] = True
        for oid, off, want in self.base(st):
            c = st.mem[oid].cells.get(off)
            if c is None or c[0] != 8 or not is_bv(c[1]) or same(c[1], want) or eng.check(st, c[1] != want) != 'unsat':
                continue
            for k in list(st.mem):
                for x, (n, v) in list(st.mem[k].cells.items()):
                    if n == 8 and is_bv(v) and same(v, c[1]):
                        st.wobj(k).cells[x] = (8, want)

    def havoc(self, eng, S0, S, M, samples):
        hv = super().havoc(eng, S0, S, M, samples)
        if hv['w'] is not None:
            S.assume(SC(hv['w']) == SC(hv['w0']))
        return hv

    def candidates(self, eng, S0, S, M, hv):
        def directive(st):
            try:
                t = self.where(eng, st, hv)
            except Unsupported:
                return None
            return None if t is None else z3.And(TY(t) == 1, BYTE(0)(t) == ord('.'))
        return super().candidates(eng, S0, S, M, hv) + [('the token is a directive', directive)]

    def ghost_step(self, eng, S, b, w, w2):
        """no iteration reads a semicolon"""
        if w is not None and not eng.implied(b, SC(w2) == SC(w), semi(w)):
            raise Unsupported('a semicolon may be read before the instruction')

    def at_head(self, eng, S, hv):
        w = hv['w']
        if w is None:
            return
        self.case(eng, S, w)
        S.gh['w'] = w


class Forms:
    """the contracts parse_instruction is checked against"""

    def __init__(self, env):
        self.env = env
        self.lay = env.lay
        self.ufs = {}
        self.keys = {}
        for (f, k), _ in env.pairs.items():
            self.keys.setdefault(f, []).append(k)
        self.specs = {}

    def uf(self, f):
        if f not in self.ufs:
            self.ufs[f] = OpUF(f)
        return self.ufs[f]

    def spec(self, f):
        if f not in self.specs:
            self.specs[f] = make(self.keys[f][0])
        return self.specs[f]

    def axioms(self, f, t, V, pc):
        """frame of operand f: only its own bits, only its own reuse flags"""
        sp, u = self.spec(f), self.uf(f)
        m = 0
        rm = 0
        for k in self.keys[f]:
            s = make(k)
            m |= s.mask
            rm |= s.rmask
        m |= self.extra(sp)
        nm = z3.BitVecVal(~m & M64, 64)
        return [u.v(t, V, pc) & nm == V & nm, u.r(t, V, pc) & z3.BitVecVal(~rm & 0xFFFFFFFF, 32) == 0]

    @staticmethod
    def extra(sp):
        """bits an operand may also clear (scratch bits of the texture modifiers)"""
        if not sp.bits_v:
            return 0
        import re
        mm = re.match(r'(texs_type|tlds_type)<(\d+)>', sp.key)
        return 7 << int(mm.group(2)) if mm else 0

    def define(self, f, t, V, pc):
        """the operand's whole specification, as facts about its functions"""
        u = self.uf(f)
        out = []
        for k in self.keys[f][:1]:
            log = {}
            S = make(k).f(SymS(t, V, z3.BitVecVal(0, 32), True, pc, log))
            for x in log.values():
                out += valid(x)
            out.append(z3.Implies(u.acc(t, V, pc), u.v(t, V, pc) == w64(S.V)))
            out.append(u.acc(t, V, pc) == zb(S.acc))
        return out

    # ---------------------------------------------------------------- contracts at calls
    def c_operand(self, f):
        lay = self.lay

        def h(eng, st, args, rt):
            if len(args) != 4 or not all(isinstance(a, P) and not a.t for a in args):
                return NotImplemented
            ret, ctx, tok, op = args
            t = tok_term(eng, st, lay, tok.o, tok.c)
            c = ctx_term(eng, st, lay, ctx.o, ctx.c)
            if t is None or c is None or not same(t, c):
                s = eng.oblige(st, 0, eng.oname('operand call', 'current token and context agree'))
                return []
            ld = lambda o, off, n: bv(eng.load(st, padd(o, off), ('i', 8 * n))[0][1], 8 * n)
            V = ld(op, lay['off_opcode_value'], 8)
            R = ld(op, lay['off_opcode_reuse'], 4)
            pc = ld(ctx, lay['off_context_pc'], 8)
            u, sp = self.uf(f), self.spec(f)
            pre = zb(sp.pre(V))
            nm = 'no bit is claimed twice: %s' % sp.key
            if eng.check(st, z3.Not(pre)) != 'unsat':
                for d in st.gh.get('defs', ()):
                    for a in self.define(*d):
                        st.assume(a, True)
            st = eng.oblige(st, pre, nm)
            if st is None:
                return []
            st = eng.oblige(st, R & sp.rmask == 0, 'no reuse flag is claimed twice: %s' % sp.key)
            if st is None:
                return []
            a = u.acc(t, V, pc)
            ok, bad = st.clone(), st
            ok.assume(a)
            for x in self.axioms(f, t, V, pc):
                ok.assume(x, True)
            t2 = u.t(t, V, pc)
            eng.put(ok, op.o, op.c + lay['off_opcode_value'], 8, u.v(t, V, pc))
            if any(make(k).rmask for k in self.keys[f]):
                eng.put(ok, op.o, op.c + lay['off_opcode_reuse'], 4, fold(R | u.r(t, V, pc)))
            self.tl.put_token(eng, ok, tok, t2)
            self.tl.set_pos(eng, ok, ctx, NEXT(t2))
            eng.put(ok, ret.o, ret.c, 8, 0)
            ok.gh['defs'] = ok.gh.get('defs', ()) + ((f, t, V, pc),)
            # rejected: word, flags and position are whatever they are
            bad.assume(z3.Not(a))
            bad.gh.pop('defs', None)
            x = u.ft(t, V, pc)
            eng.put(bad, op.o, op.c + lay['off_opcode_value'], 8, eng.fresh('leftV', 64))
            eng.put(bad, op.o, op.c + lay['off_opcode_reuse'], 4, eng.fresh('leftR', 32))
            p = eng.fresh('leftpos', 64)
            self.tl.put_token(eng, bad, tok, p)
            self.tl.set_pos(eng, bad, ctx, NEXT(p))
            eng.put(bad, ret.o, ret.c, 8, err_handle(TLINE(x), TCOL(x)))
            return [(ok, None), (bad, None)]
        return h

    def c_sched(self, eng, st, args, rt):
        lay = self.lay
        ret, ctx, tok, op = args
        t = tok_term(eng, st, lay, tok.o, tok.c)
        c = ctx_term(eng, st, lay, ctx.o, ctx.c)
        if t is None or c is None or not same(t, c):
            eng.oblige(st, 0, eng.oname('operand call', 'current token and context agree'))
            return []
        ok, bad = st.clone(), st
        ok.assume(SA(t))
        ok.assume(z3.ULT(SV(t), 1 << 17), True)
        eng.put(ok, op.o, op.c + lay['off_opcode_sched'], 4, SV(t))
        self.tl.put_token(eng, ok, tok, SE(t))
        self.tl.set_pos(eng, ok, ctx, NEXT(SE(t)))
        eng.put(ok, ret.o, ret.c, 8, 0)
        bad.assume(z3.Not(SA(t)))
        eng.put(bad, op.o, op.c + lay['off_opcode_sched'], 4, eng.fresh('leftS', 32))
        p = eng.fresh('leftpos', 64)
        self.tl.put_token(eng, bad, tok, p)
        self.tl.set_pos(eng, bad, ctx, NEXT(p))
        eng.put(bad, ret.o, ret.c, 8, err_handle(TLINE(SF(t)), TCOL(SF(t))))
        return [(ok, None), (bad, None)]

    def c_option(self, eng, st, args, rt):
        """a directive: sets option fields, moves to the token after it (or exits with a diagnostic)"""
        lay = self.lay
        ctx, tok = args[0], args[1]
        t = tok_term(eng, st, lay, tok.o, tok.c)
        c = ctx_term(eng, st, lay, ctx.o, ctx.c)
        if t is None or c is None or not same(t, c):
            eng.oblige(st, 0, eng.oname('directive call', 'current token and context agree'))
            return []
        st = eng.oblige(st, z3.And(TY(t) == 1, BYTE(0)(t) == ord('.')), eng.oname('directive call', 'the token is a directive'))
        if st is None:
            return []
        for off, n in option_cells(lay):
            for i in range(n):
                eng.put(st, ctx.o, ctx.c + off + i, 1, eng.fresh('opt', 8))
        self.tl.put_token(eng, st, tok, OE(t))
        self.tl.set_pos(eng, st, ctx, NEXT(OE(t)))
        st.assume(z3.UGT(OE(t), t), True)
        st.assume(SC(OE(t)) == SC(t), True)
        if not eng.theory.plain:
            # the token after the directive is again one of the cases
            eng.theory.case(eng, st, OE(t))
            st.gh['w'] = OE(t)
            st.gh['norm'] = False
        return [(st, None)]

    def c_copy(self, n):
        """copy of a library object of n bytes, as a value"""
        def h(eng, st, args, rt):
            return [(s, args[0]) for s in eng.copy(st, args[0], args[1], n)]
        return h

    def install(self, eng, tl):
        self.tl = tl
        ms = r'std::unordered_map<std::__cxx11::basic_string<[^()]*>::'
        so = r'std::optional<std::__cxx11::basic_string<char[^()]*>::'
        eng.contracts[:0] = [
            ((lambda dem, name: name == self.env.sched_fn), self.c_sched),
            (by_name(r'^context::parse_option\(token&\)$'), self.c_option),
            (by_name('^' + ms + r'(unordered_map|operator=)\(std::unordered_map<.* const&\)$'), self.c_copy(56)),
            (by_name('^' + so + r'(optional|operator=)\(std::optional<.* const&\)$'), self.c_copy(40)),
            (by_name('^' + ms + r'~unordered_map\(\)$|^' + so + r'~optional\(\)$'), c_nop),
        ]
        for f in self.keys:
            eng.contracts.insert(0, ((lambda dem, name, f=f: name == f), self.c_operand(f)))


def option_cells(lay):
    return [(lay['off_context_type'], 9), (lay['off_context_num_gprs'], 8), (lay['off_context_block_dimensions'], 12),
            (lay['off_context_shared_mem_size'], 4)]


def order(fn):
    fn.parse()
    return list(fn._order)


def reach_to(mod, rx):
    """(fn, loop header) -> does the loop call, directly or not, a function matching rx"""
    r = re.compile(rx)
    memo = {}

    def callees(fn, blocks=None):
        out = set()
        for b in (blocks if blocks is not None else order(fn)):
            for ins in fn.block(b):
                if ins[0] in ('call', 'invoke') and ins[3][0] == 'g':
                    out.add(mod.aliases.get(ins[3][1], ins[3][1]))
        return out

    def f_reaches(name, seen):
        if name in memo:
            return memo[name]
        if r.search(mod.demangle(name)):
            memo[name] = True
            return True
        fn = mod.functions.get(name)
        if fn is None or name in seen or short(fn.demangled).startswith('std::'):
            return False
        seen.add(name)
        v = any(f_reaches(c, seen) for c in callees(fn))
        memo[name] = v
        return v

    cache = {}

    def go(fn, header):
        k = (fn.name, header)
        if k not in cache:
            cache[k] = any(f_reaches(c, set()) for c in callees(fn, fn.loops()[header]))
        return cache[k]
    return go


def adj(pc):
    return z3.If(pc & 31 == 0, pc + 8, pc)


def row_spec(F, rows, t1, guard, pc, idx=None):
    """golden forms of one mnemonic: -> (accepted, (V, R, ctl, end), blamed position)
    rows: [(TRow, Row)]"""
    acc_any = z3.BoolVal(False)
    res = None
    best = None
    ax = []
    outs = []
    sx = []
    for tr, g in rows:
        V = fold64(z3.BitVecVal(g.opcode, 64) | fold64(guard << 16))
        R = z3.BitVecVal(0, 32)
        t = t1
        rax = []
        acc = z3.BoolVal(True)
        score = z3.BitVecVal(-1, 32)
        ft = t1
        stages = []
        if g.nopred:
            stages.append((z3.Extract(2, 0, guard) == 7, t1, 0))
        sc = 1
        for f, k in zip(tr.fns, g.keys):
            u = F.uf(f)
            stages.append((u.acc(t, V, pc), u.ft(t, V, pc), sc))
            rax += F.axioms(f, t, V, pc)
            sx.append(z3.Implies(u.acc(t, V, pc), SC(u.t(t, V, pc)) == SC(t)))
            if any(make(q).rmask for q in F.keys[f]):
                R = fold(R | u.r(t, V, pc))
                R = z3.BitVecVal(R, 32) if isinstance(R, int) else R
            t, V = u.t(t, V, pc), u.v(t, V, pc)
            sc += 1
        sc += 1000
        stages.append((SA(t), SF(t), sc))
        e = SE(t)
        sx += [z3.Implies(SA(t), SC(e) == SC(t)), semi(e)]
        stages.append((TY(e) == 13, e, sc))
        acc = z3.And([c for c, _, _ in stages])
        sco, ftl = z3.BitVecVal(0, 32), t1
        hl = err_handle(TLINE(t1), TCOL(t1))
        for c, x, n in reversed(stages):
            sco = z3.If(c, sco, z3.BitVecVal(n, 32))
            hl = z3.If(c, hl, err_handle(TLINE(x), TCOL(x)))
        outs.append((acc, V, R, SV(t), e, sco, hl, rax))
        ax += rax
    return outs, ax, sx


def fold64(e):
    e = fold(e)
    return z3.BitVecVal(e, 64) if isinstance(e, int) else e


def setup(env, F, case, deadline=None, timeout_ms=20000):
    lay = env.lay
    eng = Engine(env.mod, timeout_ms)
    eng.deadline = deadline
    tl = TokLayer(lay)
    tl.install(eng)
    F.install(eng, tl)
    eng.theory = FormTheory(lay, tl, case, reach_to(env.mod, r'^context::parse_option\('))
    eng.sym_iter_limit = 1
    st = env.cst.clone()
    st.asm, st.axids, st.ev, st.gh = [], set(), (), {}
    u, pc = z3.BitVec('u', 64), z3.BitVec('pc', 64)
    tl.init(eng, st)
    ctx = tl.new_ctx(eng, st, u, pc)
    op = st.alloc(lay['size_opcode'], 'opcode')
    eng.put(st, op.o, lay['off_opcode_value'], 8, 0)
    eng.put(st, op.o, lay['off_opcode_reuse'], 4, 0)
    eng.put(st, op.o, lay['off_opcode_sched'], 4, 0)
    st.assume(z3.ULT(pc, 1 << 30))
    for c in valid(u):
        st.assume(c, True)
    return eng, tl, st, ctx, op, u, pc


def finish(env, eng, tl, st0, outs, ctx, op, u, pc, expect, also=lambda eng, s: s):
    """expect(s): list of (kind, condition, data) alternatives the specification allows at w"""
    lay = env.lay
    nm = lambda x: 'instruction: ' + x
    n = 0
    for kind, s, info in eng.terminals:
        n += 1
        s = also(eng, s)
        if s is None:
            continue
        spec = expect(s)
        acc, h = spec['acc'], spec['handle']
        for a in spec['ax']:
            s.assume(a, True)
        s = eng.oblige(s, z3.Not(acc), nm('rejects only what no form accepts'))
        if s is None:
            continue
        if kind == 'raise':
            got = bv(info, 64)
        elif info is None:
            eng.oblige(s, 0, nm('diagnostic carries a position'))
            continue
        else:
            got = err_handle(*info)
        eng.oblige(s, got == h, nm('diagnostic points at the token that could not be accepted'))
    for s, v in outs:
        n += 1
        v = boolof(v)
        if not isinstance(v, int):
            raise Unsupported('result of parse_instruction')

        def cell(o, off, k):
            return bv(eng.load(s, padd(o, off), ('i', 8 * k))[0][1], 8 * k)
        if not v:
            s = eng.oblige(s, TY(u) == 0, nm('ends only at the end of the text'))
            if s is None:
                continue
            tl.ctx_frame(eng, st0, s, ctx, nm('context frame'))
            continue
        s = eng.oblige(s, TY(u) != 0, nm('ends at the end of the text'))
        s = s and also(eng, s)
        if s is None:
            continue
        spec = expect(s)
        for a in spec['ax']:
            s.assume(a, True)
        s = eng.oblige(s, spec['acc'], nm('accepts only what a form accepts'))
        if s is None:
            continue
        if spec.get('value') is None:
            continue
        y = s.clone()
        for a in spec['semis']:
            y.assume(a, True)
        eng.oblige(y, lift(SC, spec['end']) == SC(u) + 1, nm('consumes one semicolon'))
        for what, got, want in (('instruction word', cell(op, lay['off_opcode_value'], 8), spec['value']),
                                ('reuse flags', cell(op, lay['off_opcode_reuse'], 4), spec['reuse']),
                                ('control field', cell(op, lay['off_opcode_sched'], 4), spec['ctl']),
                                ('consumes exactly its text', tl.pos_of(s, ctx), spec['end']),
                                ('address of the next instruction', cell(ctx, lay['off_context_pc'], 8), adj(pc) + 8)):
            s = eng.oblige(s, got == want, nm(what))
            if s is None:
                break
        if s is None:
            continue
        tl.ctx_frame(eng, st0, s, ctx, nm('context frame'), skip=[(lay['off_context_pc'], 8)] + option_cells(lay))
    if n == 0:
        eng.failures.append(Obligation(nm('terminates normally'), 'unknown'))
    return eng


def verify_mnemonic(env, fname, mn, guarded, plain=False, deadline=None):
    """plain: only texts without directives before the instruction (exact, no abstraction)"""
    F = Forms(env)
    rows = env.al[mn]
    info = {}

    def case(eng, S, w):
        m = NEXT(NEXT(w)) if guarded else w
        d = z3.And(TY(w) == 1, BYTE(0)(w) == ord('.'))
        c = [word(m, mn)]
        for x in valid(m) + valid(NEXT(w)):
            S.assume(x, True)
        if guarded:
            c += [TY(w) == 12, TY(NEXT(w)) == 3]
        S.assume(z3.And(c) if plain else z3.Or(d, z3.And(c)))
        S.gh['words'] = ((m.get_id(), mn.encode(), m),)

    eng, tl, st, ctx, op, u, pc = setup(env, F, case, deadline)
    eng.theory.plain = plain
    case(eng, st, u)
    st.gh['w'] = u
    apc = z3.BitVec('apc', 64)
    st0 = st.clone()

    memo = {}

    def expect(s):
        w = s.gh.get('w')
        if w is None:
            raise Unsupported('instruction accepted before its mnemonic')
        if w.get_id() in memo:
            return memo[w.get_id()]
        if guarded:
            p = NEXT(w)
            guard = z3.ZeroExt(32, z3.Extract(31, 0, W0(p))) | z3.LShR(W0(p), 32) << 3
            m = NEXT(p)
        else:
            guard = z3.BitVecVal(7, 64)
            m = w
        outs, ax, sx = row_spec(F, rows, NEXT(m), guard, apc)
        sx += [semi(w), semi(NEXT(w)), semi(m)]
        ax.append(apc == adj(pc))
        acc = z3.Or([o[0] for o in outs])
        pick = lambda i: pick_first(outs, i)
        # furthest form, first such; every prefix of the forms has its own name
        names = []
        bs, bh = None, None
        for i, o in enumerate(outs):
            ns, nh, na = z3.BitVec('best!%d' % i, 32), z3.BitVec('blame!%d' % i, 64), z3.Bool('accepts!%d' % i)
            df = [na == o[0], ns == (o[5] if bs is None else z3.If(o[5] > bs, o[5], bs)),
                   nh == (o[6] if bs is None else z3.If(o[5] > bs, o[6], bh))]
            bs, bh = ns, nh
            names.append((na, ns, nh, df))
            ax += df
            outs[i] = (na,) + o[1:]
        acc = z3.Or([n[0] for n in names])
        r = {'semis': sx, 'names': names, 'guard': fold64(guard << 16), 'acc': acc, 'value': pick(1), 'reuse': pick(2), 'ctl': pick(3), 'end': NEXT_l(pick(4)), 'handle': bh, 'ax': ax}
        memo[w.get_id()] = r
        return r
    def prefix(s, k):
        if s.gh.get('w') is None or k > len(rows):
            return None
        r = expect(s)
        n = r['names'][k - 1]
        return z3.Not(n[0]), n[3], n[1], n[2]

    def base(s):
        s.assume(apc == adj(pc), True)
        return [(op.o, op.c + env.lay['off_opcode_value'], expect(s)['guard']),
                (ctx.o, ctx.c + env.lay['off_context_pc'], apc)]
    eng.theory.base = base
    eng.theory.prefix = prefix
    def handed(eng, s):
        w = s.gh.get('w')
        if w is None:
            return s
        return eng.oblige(s, z3.Not(z3.And(TY(w) == 1, BYTE(0)(w) == ord('.'))), 'directive: every one before an instruction is handed over')
    outs = eng.call(st, Fn(fname), [ctx, op], ('i', 1))
    return finish(env, eng, tl, st0, outs, ctx, op, u, pc, expect, handed)


def NEXT_l(e):
    return lift(NEXT, e)


def pick_first(outs, i):
    e = outs[-1][i]
    for o in reversed(outs[:-1]):
        e = z3.If(o[0], o[i], e)
    return e


def verify_head(env, fname, plain=False, deadline=None):
    """everything before the forms: end of text, directives, guards, missing or unknown mnemonics"""
    F = Forms(env)
    known = sorted(env.al) + [m for m, _ in env.odd]

    def case(eng, S, w):
        d = z3.And(TY(w) == 1, BYTE(0)(w) == ord('.'))
        g = TY(w) == 12
        p, m2 = NEXT(w), NEXT(NEXT(w))
        for x in valid(w) + valid(p) + valid(m2):
            S.assume(x, True)
        notk = lambda m: z3.Not(z3.Or([word(m, k) for k in known]))
        S.assume(z3.Or(z3.And(d, z3.BoolVal(not plain)), z3.And(g, z3.Implies(TY(p) == 3, notk(m2))), z3.And(z3.Not(g), notk(w))))
        S.gh['words'] = ((w.get_id(), None, w, tuple(k.encode() for k in known)), (m2.get_id(), None, m2, tuple(k.encode() for k in known)))

    eng, tl, st, ctx, op, u, pc = setup(env, F, case, deadline)
    eng.theory.plain = plain
    case(eng, st, u)
    st.gh['w'] = u
    st0 = st.clone()

    def expect(s):
        w = s.gh.get('w')
        if w is None:
            return {'acc': z3.BoolVal(False), 'handle': z3.BitVecVal(0, 64), 'ax': []}
        p = NEXT(w)
        m = z3.If(TY(w) == 12, z3.If(TY(p) == 3, NEXT(p), p), w)
        return {'acc': z3.BoolVal(False), 'handle': err_handle(lift(TLINE, m), lift(TCOL, m)), 'ax': []}
    def handed(eng, s):
        w = s.gh.get('w')
        if w is None:
            return s
        return eng.oblige(s, z3.Not(z3.And(TY(w) == 1, BYTE(0)(w) == ord('.'))), 'directive: every one before an instruction is handed over')
    outs = eng.call(st, Fn(fname), [ctx, op], ('i', 1))
    return finish(env, eng, tl, st0, outs, ctx, op, u, pc, expect, handed)
