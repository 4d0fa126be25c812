"""Operand contracts: each C++ operand function against its specification, for all token
sequences, all instruction words V (within the precondition), reuse flags and addresses."""
import time
import z3

from vcg.engine import *
from vcg.engine import bv
from vcg import fp
from spec import tokens as T
from spec.tokens import TY, W0, NEXT, TLINE, TCOL, SymS, valid, lift
from spec.ops import zb, w64
from spec.operands import make
from .tokmodel import TokLayer, err_handle


class OpTheory(Theory):
    pass


def fp_axioms(terms):
    """exact facts for every conversion term that occurs"""
    out = []
    seen = set()
    todo = list(terms)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            d = e.decl()
            if d.eq(fp.EXT):
                out += fp.axiom_ext(e.arg(0))
            elif d.eq(fp.S2F):
                out += fp.axiom_s2f(e.arg(0))
            elif d.eq(fp.H16):
                out += fp.axiom_h16(e.arg(0))
            elif d.eq(fp.S2D):
                out += fp.axiom_s2d(e.arg(0))
            elif d.eq(fp.F2S):
                out += fp.axiom_f2s(e.arg(0))
            todo.extend(e.children())
    return out


def leaves(t, cs=()):
    """alternatives of an if-then-else position: (conditions, position)"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return leaves(t.arg(1), cs + (t.arg(0),)) + leaves(t.arg(2), cs + (z3.Not(t.arg(0)),))
    return [(cs, t)]


def verify_operand(mod, lay, fname, key, timeout_ms=20000, positions=True, unroll=None):
    """-> Engine with obligations/failures filled in"""
    spec = make(key)
    eng = Engine(mod, timeout_ms)
    eng.theory = OpTheory()
    eng.force_unroll = unroll
    tl = TokLayer(lay)
    tl.install(eng)
    u = z3.BitVec('u', 64)
    V = z3.BitVec('V', 64)
    R = z3.BitVec('R', 32)
    pc = z3.BitVec('pc', 64)
    st = State()
    tl.init(eng, st)
    ctx = tl.new_ctx(eng, st, NEXT(u), pc)
    tok = st.alloc(lay['size_token'], 'token')
    tl.put_token(eng, st, tok, u)
    op = st.alloc(lay['size_opcode'], 'opcode')
    sched = z3.BitVec('sched', 32)
    eng.put(st, op.o, lay['off_opcode_value'], 8, V)
    eng.put(st, op.o, lay['off_opcode_reuse'], 4, R)
    eng.put(st, op.o, lay['off_opcode_sched'], 4, sched)
    ret = st.alloc(8, 'result')
    # specification
    log = {}
    S0 = SymS(u, V, R, True, pc, log)
    S1 = spec.f(S0)
    acc = zb(S1.acc)
    # lemma over the specification: an accepted operand holds no semicolon
    lem = State()
    for x in list(log.values()):
        lem.assume(T.semi(x), True)
    lem.assume(acc)
    for cs, x in leaves(S1.t):
        y = lem.clone()
        for c in cs:
            y.assume(c)
        eng.oblige(y, T.SC(x) == T.SC(u), '%s: consumes no semicolon' % key)
    # requires
    pre = [zb(spec.pre(V)), (R & spec.rmask) == 0, z3.ULT(pc, 1 << 30)]
    for t in list(log.values()):
        for c in valid(t):
            pre.append(c)
        pre.append(z3.Implies(T.HASL(t), z3.ULT(T.LBL(t), 1 << 30)))
    for c in pre:
        st.assume(c, False)
    if eng.check(st) != 'sat':
        raise Unsupported('vacuous precondition of ' + key)
    fn = mod.functions[fname]
    st0 = st.clone()
    eng.key = key
    outs = eng.call(st, Fn(fname), [ret, ctx, tok, op], ('v',))
    naccept = nreject = 0
    nm = lambda w: '%s: %s' % (key, w)
    for kind, s, info in eng.terminals:
        eng.oblige(s, 0, nm('returns to its caller'))
    for s, _ in outs:
        h = s.mem[ret.o].cells.get(0)
        h = h[1] if h and h[0] == 8 else None
        if h is None:
            eng.oblige(s, 0, nm('returns a result'))
            continue
        for c in fp_axioms([c for c, _ in s.asm] + [acc]):
            s.assume(c, True)
        if isinstance(h, int) and h == 0:
            ok, rej = s, None
        elif isinstance(h, int):
            ok, rej = None, s
        else:
            ok, rej = eng.split(s, h == 0)
        if rej is not None:
            nreject += 1
            rej = eng.oblige(rej, z3.Not(acc), nm('rejects only what the specification rejects'))
            if rej is not None and positions and S1.ft is not None:
                h = rej.mem[ret.o].cells[0][1]
                want = err_handle(lift(TLINE, S1.ft), lift(TCOL, S1.ft))
                eng.oblige(rej, bv(h, 64) == want, nm('diagnostic points at the rejected token'))
            if rej is not None:
                tl.ctx_frame(eng, st0, rej, ctx, nm('context frame'))
        if ok is not None:
            naccept += 1
            ok = eng.oblige(ok, acc, nm('accepts only what the specification accepts'))
            if ok is None:
                continue
            L = lay

            def cell(o, off, n):
                r = eng.load(ok, padd(o, off), ('i', 8 * n))
                return bv(r[0][1], 8 * n)
            v1 = cell(op, L['off_opcode_value'], 8)
            for c in fp_axioms([v1, w64(S1.V)]):
                ok.assume(c, True)
            ok = eng.oblige(ok, v1 == w64(S1.V), nm('instruction bits'))
            if ok is None:
                continue
            ok = eng.oblige(ok, cell(op, L['off_opcode_reuse'], 4) == S1.R, nm('reuse flags'))
            if ok is None:
                continue
            ok = eng.oblige(ok, cell(op, L['off_opcode_sched'], 4) == sched, nm('control field untouched'))
            if ok is None:
                continue
            p = tl.pos_of(ok, ctx)
            ok = eng.oblige(ok, p == lift(NEXT, S1.t), nm('consumes exactly its tokens'))
            if ok is None:
                continue
            w = z3.And(cell(tok, L['off_token_type'], 4) == lift(TY, S1.t),
                       cell(tok, L['off_token_data'], 8) == lift(W0, S1.t),
                       cell(tok, L['off_token_line'], 4) == lift(TLINE, S1.t),
                       cell(tok, L['off_token_column'], 4) == lift(TCOL, S1.t))
            sp = ok.mem[tok.o].cells.get(L['off_token_data'] + 8)
            if sp is None or not isinstance(sp[1], P) or not str(sp[1].o).startswith('str:') or sp[1].c or sp[1].t:
                w = 0
            else:
                w = z3.And(w, ok.mem[sp[1].o].meta.t == S1.t)
            ok = eng.oblige(ok, w, nm('current token is the one after the operand'))
            if ok is None:
                continue
            tl.ctx_frame(eng, st0, ok, ctx, nm('context frame'))
    if naccept + nreject == 0:
        eng.failures.append(Obligation(nm('terminates normally'), 'unknown'))
    eng.stats = (naccept, nreject)
    return eng
