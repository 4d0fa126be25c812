"""Directives: context::parse_option against the list of directives, for every token sequence."""
import z3

from vcg.engine import *
from vcg.engine import bv
from spec.tokens import TY, W0, NEXT, TLINE, TCOL, BYTE, SC, semi, valid
from .tokmodel import TokLayer
from .loops import tok_term
from .sched import word

TYPES = [('vertex',), ('tess_control', 'hull'), ('tess_eval', 'domain'), ('geometry',), ('fragment', 'pixel'), ('compute',)]
INT_MAX = (1 << 31) - 1


def directives(t, typed):
    """[(condition on the word at t, stages [(accepted, blamed token)], token after, fields)]
    fields: {cell: value}; 'type' stands for the optional program type"""
    ts = [t]
    for _ in range(4):
        ts.append(NEXT(ts[-1]))
    line = TLINE(t)
    same = lambda x: (TLINE(x) == line, x)
    num = lambda x, hi=INT_MAX: (z3.And(TY(x) == 4, z3.ULE(W0(x), hi)), x)
    v32 = lambda x: z3.Extract(31, 0, W0(x))
    ty = z3.BitVecVal(0, 32)
    known = z3.BoolVal(False)
    for i, names in enumerate(TYPES):
        c = z3.Or([word(ts[1], n) for n in names])
        ty = z3.If(c, z3.BitVecVal(i, 32), ty)
        known = z3.Or(known, c)
    kind = [(z3.Not(typed), t), same(ts[1]), (known, ts[1])]
    one = lambda x, hi=INT_MAX: [num(x, hi), same(x)]
    out = [('.dksh', kind, 1, {'type': ty, 'is_dksh': z3.BitVecVal(1, 8)}),
           ('.type', kind, 1, {'type': ty}),
           ('.num_gprs', one(ts[1]), 1, {'num_gprs': v32(ts[1])}),
           ('.workgroup_size', [num(ts[1]), num(ts[2]), num(ts[3]), same(ts[3])], 3, {'block': [v32(ts[i]) for i in (1, 2, 3)]}),
           ('.shared_memory', one(ts[1]), 1, {'shared_mem_size': v32(ts[1])}),
           ('.local_memory', one(ts[1], 0xFFFFFF), 1, {'local_mem_size': v32(ts[1])})]
    res = []
    for n, stages, k, f in out:
        e = ts[k + 1]
        res.append((n, word(t, n), stages + [(TLINE(e) != line, e)], e, f))
    res.append(('another directive', z3.Not(z3.Or([word(t, n) for n, *_ in out])), [(TLINE(ts[1]) != line, ts[1])], ts[1], {}))
    return res, ts


def verify_option(env, fname, deadline=None):
    lay = env.lay
    eng = Engine(env.mod, 20000)
    eng.deadline = deadline
    tl = TokLayer(lay)
    tl.install(eng)
    st = State()
    tl.init(eng, st)
    t, pc = z3.BitVec('t', 64), z3.BitVec('pc', 64)
    ctx = tl.new_ctx(eng, st, NEXT(t), pc)
    O = lambda f: lay['off_context_' + f]
    b = lambda f, i=0: st.mem[ctx.o].cells[O(f) + i][1]
    typed = b('type', 4) != 0
    st.assume(z3.And(z3.ULE(b('type', 4), 1), z3.ULE(b('is_dksh'), 1)))
    tok = st.alloc(lay['size_token'], 'token')
    tl.put_token(eng, st, tok, t)
    st.assume(z3.And(TY(t) == 1, BYTE(0)(t) == ord('.')))
    alts, ts = directives(t, typed)
    for x in ts:
        for c in valid(x):
            st.assume(c, True)
        # moves on (proved of the tokenizer)
        st.assume(z3.And(z3.UGE(NEXT(x), x), z3.Implies(TY(x) != 0, z3.UGT(NEXT(x), x)), z3.ULE(TLINE(x), TLINE(NEXT(x)))), True)
    st0 = st.clone()
    outs = eng.call(st, Fn(fname), [ctx, tok], ('v',))
    nm = lambda x: 'directive: ' + x
    n = 0
    for _, c, stages, e, _ in alts:
        lem = State()
        for x in ts:
            lem.assume(semi(x), True)
        lem.assume(z3.And([c, TY(t) == 1] + [s for s, _ in stages]))
        eng.oblige(lem, SC(e) == SC(t), nm('consumes no semicolon'))
    ok = z3.And([z3.Implies(c, z3.And([s for s, _ in stages])) for _, c, stages, _, _ in alts])
    for kind, z, info in eng.terminals:
        n += 1
        z = eng.oblige(z, z3.Not(ok), nm('refuses only what the grammar refuses'))
        if z is None:
            continue
        if kind != 'fatal' or info is None:
            eng.oblige(z, 0, nm('diagnostic carries a position'))
            continue
        for _, c, stages, _, _ in alts:
            if eng.check(z, c) == 'unsat':
                continue
            y = z.clone()
            y.assume(c)
            l, k = TLINE(stages[-1][1]), TCOL(stages[-1][1])
            for s, x in reversed(stages[:-1]):
                l, k = z3.If(s, l, TLINE(x)), z3.If(s, k, TCOL(x))
            eng.oblige(y, z3.And(bv(info[0], 32) == l, bv(info[1], 32) == k), nm('diagnostic points at the token that is wrong'))
    for z, _ in outs:
        n += 1
        z = eng.oblige(z, ok, nm('accepts only what the grammar accepts'))
        if z is None:
            continue
        for name, c, stages, e, fields in alts:
            if eng.check(z, c) == 'unsat':
                continue
            y = z.clone()
            y.assume(c)
            cell = lambda o, off, w: bv(eng.load(y, padd(o, off), ('i', 8 * w))[0][1], 8 * w)
            want = []
            skip = []
            for f, v in fields.items():
                if f == 'type':
                    want.append((f, z3.And(cell(ctx, O('type'), 4) == v, cell(ctx, O('type') + 4, 1) == 1)))
                    skip.append((O('type'), 8))
                elif f == 'block':
                    for i in range(3):
                        want.append(('workgroup size', cell(ctx, O('block_dimensions') + 4 * i, 4) == v[i]))
                    skip.append((O('block_dimensions'), 12))
                else:
                    want.append((f, cell(ctx, O(f), v.size() // 8) == v))
                    skip.append((O(f), v.size() // 8))
            for f, q in want:
                y = eng.oblige(y, q, nm('%s sets %s to the value given' % (name, f)))
                if y is None:
                    break
            if y is None:
                continue
            q = z3.And(cell(tok, lay['off_token_type'], 4) == TY(e), cell(tok, lay['off_token_line'], 4) == TLINE(e),
                       cell(tok, lay['off_token_column'], 4) == TCOL(e), z3.Or(TY(e) == 0, cell(tok, lay['off_token_data'], 8) == W0(e)),
                       tl.pos_of(y, ctx) == NEXT(e), z3.UGT(e, t))
            y = eng.oblige(y, q, nm('goes on with the token after it'))
            if y is None:
                continue
            split_frame(eng, tl, st0, y, ctx, nm('sets nothing else (context frame)'), skip)
    if n == 0:
        eng.failures.append(Obligation(nm('terminates'), 'unknown'))
    return eng


def split_frame(eng, tl, st0, st, ctx, name, skip):
    """context bytes outside skip and the read position are unchanged; cells may have been widened"""
    L = tl.lay
    pos = [(L['off_context_text'], 8), (L['off_context_line'], 4), (L['off_context_column'], 4)] + list(skip)
    a, b = st0.mem[ctx.o], st.mem[ctx.o]
    for off in sorted(a.cells):
        n, v = a.cells[off]
        if any(s <= off < s + k for s, k in pos):
            continue
        c = b.cells.get(off)
        if c is not None and c[0] == n and same(c[1], v):
            continue
        if not (is_bv(v) or isinstance(v, int)):
            st = eng.oblige(st, 0, name, 'byte %d' % off)
        else:
            w = eng.load_raw(st, b, off, n)
            st = eng.oblige(st, bv(w, 8 * n) == bv(v, 8 * n) if is_bv(w) or isinstance(w, int) else 0, name, 'byte %d' % off)
        if st is None:
            return None
    return eng.oblige(st, 1, name)
