"""Scheduling annotations: the annotation loop against a fold over the token sequence."""
import z3

from vcg.engine import *
from vcg.engine import bv
from spec.tokens import TY, W0, NEXT, TLINE, TCOL, BYTE, SC, semi, valid, lift
from .tokmodel import TokLayer, err_handle
from .loops import TokTheory, tok_term


def word(t, s):
    b = s.encode()
    return z3.And([TY(t) == 1, W0(t) == len(b)] + [BYTE(k)(t) == c for k, c in enumerate(b)])


class G:
    """what the annotations read so far say"""
    F = ('ss', 'sv', 'ws', 'wv', 'rs', 'rv', 'y', 'dep')

    def __init__(self, **k):
        for f in self.F:
            setattr(self, f, k[f])

    @staticmethod
    def init():
        z, f = z3.BitVecVal(0, 32), z3.BoolVal(False)
        return G(ss=f, sv=z, ws=f, wv=z, rs=f, rv=z, y=f, dep=z)

    @staticmethod
    def fresh(eng):
        return G(ss=eng.freshb('stall_set'), sv=eng.fresh('stall', 32), ws=eng.freshb('wb_set'), wv=eng.fresh('wb', 32),
                 rs=eng.freshb('rb_set'), rv=eng.fresh('rb', 32), y=eng.freshb('yield'), dep=eng.fresh('dep', 32))

    def inv(self):
        """holds of every reachable annotation state (values were range-checked, mask has six bits)"""
        return [z3.Implies(self.ss, z3.ULE(self.sv, 15)), z3.Implies(self.ws, z3.ULE(self.wv, 5)),
                z3.Implies(self.rs, z3.ULE(self.rv, 5)), z3.ULT(self.dep, 64)]

    def field(self):
        i = z3.If
        c = lambda n: z3.BitVecVal(n, 32)
        return (i(self.ss, self.sv, c(0)) | i(self.y, c(16), c(0)) | i(self.ws, self.wv, c(7)) << 5 |
                i(self.rs, self.rv, c(7)) << 8 | self.dep << 11)


def step(g, w):
    """one annotation at w (an '@'): -> (rejected, blamed position, new state, position after)"""
    n = NEXT(w)
    v = NEXT(n)
    e = NEXT(v)
    val = W0(v)
    v32 = z3.Extract(31, 0, val)

    def rng(hi):
        return z3.And(TY(v) == 4, z3.ULE(val, hi))
    wait, wb, rb, dep = word(n, 'WAIT'), word(n, 'WB'), word(n, 'RB'), word(n, 'DEP')
    y = z3.Or(word(n, 'Y'), word(n, 'YIELD'))
    bit = z3.BitVecVal(1, 32) << v32
    ok = z3.Or(z3.And(wait, z3.Not(g.ss), rng(15)), z3.And(wb, z3.Not(g.ws), rng(5)), z3.And(rb, z3.Not(g.rs), rng(5)),
               z3.And(y, z3.Not(g.y)), z3.And(dep, rng(5), g.dep & bit == 0))
    blame_n = z3.Or(z3.And(wait, g.ss), z3.And(wb, g.ws), z3.And(rb, g.rs), y, z3.Not(z3.Or(wait, wb, rb, dep, y)))
    ft = z3.If(blame_n, n, v)
    i = z3.If
    g2 = G(ss=z3.Or(g.ss, wait), sv=i(wait, v32, g.sv), ws=z3.Or(g.ws, wb), wv=i(wb, v32, g.wv),
           rs=z3.Or(g.rs, rb), rv=i(rb, v32, g.rv), y=z3.Or(g.y, y), dep=i(dep, g.dep | bit, g.dep))
    return z3.Not(ok), ft, g2, i(y, v, e), [n, v, e]


class SchedTheory(TokTheory):
    def ghost_havoc(self, eng, S, w):
        if w is None or 'sched' in S.gh and S.gh.get('sched_done'):
            return
        g = G.fresh(eng)
        for c in g.inv():
            S.assume(c)
        S.gh['sched'] = (g, w)

    def ghost_step(self, eng, S, b, w, w2):
        if w is None or 'sched' not in b.gh:
            return
        g, w = b.gh['sched']
        rej, ft, g2, e, ts = step(g, w)
        # the iteration must have consumed exactly one annotation
        for t in ts:
            for c in valid(t):
                b.assume(c, True)
        q = eng.check(b, z3.Not(z3.And(TY(w) == 12, z3.Not(rej), lift(lambda x: x, e) == w2)))
        if q != 'unsat':
            raise Unsupported('an iteration of the annotation loop is not one annotation')
        b.gh['sched'] = (g2, w2)
        for c in g2.inv():
            if eng.check(b, z3.Not(c)) != 'unsat':
                raise Unsupported('annotation state invariant')

    def ghost_cands(self, eng, key, get, S0):
        oid, off, n = key
        out = []

        def add(nm, f):
            def h(st):
                v = get(st)
                if v is None or 'sched' not in st.gh:
                    return None
                g = st.gh['sched'][0]
                return f(v, g)
            out.append(('%s+%d: %s' % (oid, off, nm), h))
        w = 8 * n
        ext = lambda x: x if w == 32 else z3.ZeroExt(w - 32, x) if w > 32 else z3.Extract(w - 1, 0, x)
        one = lambda c: z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        for fl in ('ss', 'ws', 'rs', 'y'):
            add('is ' + fl, lambda v, g, fl=fl: v == one(getattr(g, fl)))
        add('is dep', lambda v, g: v == ext(g.dep))
        for fl, va in (('ss', 'sv'), ('ws', 'wv'), ('rs', 'rv')):
            for s in (0, 5, 8):
                add('%s then %s<<%d' % (fl, va, s), lambda v, g, fl=fl, va=va, s=s: z3.Implies(getattr(g, fl), v == ext(getattr(g, va) << s)))
            for k in (0, 7, 0xE0, 0x700, -1):
                add('not %s then %d' % (fl, k), lambda v, g, fl=fl, k=k: z3.Implies(z3.Not(getattr(g, fl)), v == z3.BitVecVal(k, w)))
        add('dep<<11', lambda v, g: v == ext(g.dep << 11))
        add('y<<4', lambda v, g: v == ext(z3.If(g.y, z3.BitVecVal(16, 32), z3.BitVecVal(0, 32))))
        add('field', lambda v, g: v == ext(g.field()))
        return out


def fold_spec(u, k):
    """the annotations from u on, at most k of them: (within, accepted, field, end, blamed)"""
    g, w = G.init(), u
    acc = z3.BoolVal(True)
    ft = u
    for _ in range(k):
        more = z3.And(acc, TYl(w) == 12)
        if isinstance(w, z3.ExprRef) and z3.is_app_of(w, z3.Z3_OP_ITE):
            pass
        rej, f2, g2, e, ts = stepl(g, w)
        ft = z3.If(z3.And(more, rej), f2, ft)
        g = G(**{f: z3.If(more, getattr(g2, f), getattr(g, f)) for f in G.F})
        acc = z3.And(acc, z3.Not(z3.And(more, rej)))
        w = z3.If(more, e, w)
    return z3.Or(z3.Not(acc), TYl(w) != 12), acc, g.field(), w, ft


def TYl(w):
    return TY(w)


def stepl(g, w):
    return step(g, w)


def verify_sched(mod, lay, fname, unroll=None, deadline=None, timeout_ms=20000):
    eng = Engine(mod, timeout_ms)
    eng.deadline = deadline
    tl = TokLayer(lay)
    tl.install(eng)
    eng.theory = SchedTheory(lay, tl)
    eng.sym_iter_limit = 0
    eng.force_unroll = unroll
    u = z3.BitVec('u', 64)
    V, R, sched, pc = z3.BitVec('V', 64), z3.BitVec('R', 32), z3.BitVec('sched', 32), z3.BitVec('pc', 64)
    st = State()
    tl.init(eng, st)
    ctx = tl.new_ctx(eng, st, NEXT(u), pc)
    tok = st.alloc(lay['size_token'], 'token')
    tl.put_token(eng, st, tok, u)
    op = st.alloc(lay['size_opcode'], 'opcode')
    eng.put(st, op.o, lay['off_opcode_value'], 8, V)
    eng.put(st, op.o, lay['off_opcode_reuse'], 4, R)
    eng.put(st, op.o, lay['off_opcode_sched'], 4, sched)
    ret = st.alloc(8, 'result')
    st.gh['sched'] = (G.init(), u)
    st0 = st.clone()
    nm = lambda x: 'annotations: ' + x
    if unroll is None:
        lem = State()
        g, w = G.fresh(eng), z3.BitVec('w', 64)
        rej, _, _, e, _ = step(g, w)
        for x in (w, NEXT(w), NEXT(NEXT(w))):
            lem.assume(semi(x), True)
        lem.assume(z3.And(TY(w) == 12, z3.Not(rej)))
        eng.oblige(lem, lift(SC, e) == SC(w), nm('consume no semicolon'))
    outs = eng.call(st, Fn(fname), [ret, ctx, tok, op], ('v',))
    for kind, s, info in eng.terminals:
        eng.oblige(s, 0, nm('returns to its caller'))
    if unroll is not None:
        within, sacc, sval, send, sft = fold_spec(u, unroll)
    for s, _ in outs:
        h = s.mem[ret.o].cells.get(0)
        h = h[1] if h and h[0] == 8 else None
        if h is None:
            eng.oblige(s, 0, nm('returns a result'))
            continue
        if unroll is None:
            g, w = s.gh['sched']
            rej, ft, g2, e, ts = step(g, w)
            for t in [w] + ts:
                for c in valid(t):
                    s.assume(c, True)
            acc = TY(w) != 12
            val, end = g.field(), w
            rejected = z3.And(TY(w) == 12, rej)
        else:
            s.assume(within)
            if eng.check(s) == 'unsat':
                continue
            acc, val, end, ft = sacc, sval, send, sft
            rejected = z3.Not(acc)
        if isinstance(h, int):
            ok, bad = (s, None) if h == 0 else (None, s)
        else:
            ok, bad = eng.split(s, h == 0)
        if bad is not None:
            bad = eng.oblige(bad, rejected, nm('rejects only what the specification rejects'))
            if bad is not None:
                h = bad.mem[ret.o].cells[0][1]
                eng.oblige(bad, bv(h, 64) == err_handle(lift(TLINE, ft), lift(TCOL, ft)), nm('diagnostic points at the rejected token'))
                tl.ctx_frame(eng, st0, bad, ctx, nm('context frame'))
        if ok is not None:
            ok = eng.oblige(ok, acc, nm('accepts only what the specification accepts'))
            if ok is None:
                continue

            def cell(o, off, n):
                return bv(eng.load(ok, padd(o, off), ('i', 8 * n))[0][1], 8 * n)
            ok = eng.oblige(ok, cell(op, lay['off_opcode_sched'], 4) == val, nm('control field'))
            if ok is None:
                continue
            ok = eng.oblige(ok, z3.And(cell(op, lay['off_opcode_value'], 8) == V, cell(op, lay['off_opcode_reuse'], 4) == R),
                            nm('instruction word and reuse flags untouched'))
            if ok is None:
                continue
            ok = eng.oblige(ok, tl.pos_of(ok, ctx) == lift(NEXT, end), nm('consumes exactly the annotations'))
            if ok is None:
                continue
            t2 = tok_term(eng, ok, lay, tok.o, tok.c)
            ok = eng.oblige(ok, z3.BoolVal(False) if t2 is None else t2 == end, nm('current token is the one after the annotations'))
            if ok is None:
                continue
            tl.ctx_frame(eng, st0, ok, ctx, nm('context frame'))
    if not outs:
        eng.failures.append(Obligation(nm('terminates normally'), 'unknown'))
    return eng
