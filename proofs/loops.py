"""Loop abstraction over token streams: inside a loop the current token is the token at an
arbitrary position w and the context stands after it; a unit's ghost variables follow w."""
import z3

from vcg.engine import *
from vcg.engine import bv
from spec.tokens import TY, W0, NEXT, TLINE, TCOL, PLINE, PCOL, valid
from .tokmodel import TEXT, StrMeta


def tok_term(eng, st, lay, oid, base):
    """position whose token the struct at (oid, base) holds, or None"""
    o = st.mem.get(oid)
    if o is None or o.kind != 'bytes':
        return None
    c = o.cells.get(base + lay['off_token_data'] + 8)
    if c is None or not isinstance(c[1], P) or c[1].o not in st.mem:
        return None
    m = st.mem[c[1].o].meta
    if not isinstance(m, StrMeta) or c[1].c or c[1].t:
        return None
    t = m.t
    for f, want in (('data', W0(t)), ('type', TY(t)), ('line', TLINE(t)), ('column', TCOL(t))):
        x = o.cells.get(base + lay['off_token_' + f])
        if x is None or not same(x[1], want):
            return None
    return t


def ctx_term(eng, st, lay, oid, base):
    """position t such that the context stands at NEXT(t), or None"""
    o = st.mem.get(oid)
    if o is None:
        return None
    c = o.cells.get(base + lay['off_context_text'])
    if c is None or not isinstance(c[1], P) or c[1].o != TEXT:
        return None
    u = poff(c[1])
    if isinstance(u, int) or not z3.is_app(u) or not u.decl().eq(NEXT):
        return None
    for f, want in (('line', PLINE(u)), ('column', PCOL(u))):
        x = o.cells.get(base + lay['off_context_' + f])
        if x is None or not same(x[1], want):
            return None
    return u.arg(0)


class TokTheory(Theory):
    """lay: layout; tl: TokLayer.  Subclasses define ghosts."""

    def __init__(self, lay, tl):
        super().__init__()
        self.lay = lay
        self.tl = tl

    # ghosts: subclass hooks
    def ghost_havoc(self, eng, S, w):
        pass

    def ghost_step(self, eng, S, b, w, w2):
        """b: state at the back edge (loop head state S at position w)"""
        pass

    def ghost_cands(self, eng, key, get, S0):
        return []

    def groups(self, S, M):
        """token and context structures among the modified cells, in state S"""
        L = self.lay
        toks, ctxs = set(), set()
        for oid, off, n in M:
            if off is None:
                continue
            o = S.mem.get(oid)
            if o is None or o.kind != 'bytes':
                continue
            for f in ('data', 'type', 'line', 'column'):
                for d in ((0, 8) if f == 'data' else (0,)):
                    b = off - L['off_token_' + f] - d
                    if b >= 0 and tok_term(None, S, L, oid, b) is not None:
                        toks.add((oid, b))
            for f in ('text', 'line', 'column'):
                b = off - L['off_context_' + f]
                if b >= 0 and ctx_term(None, S, L, oid, b) is not None:
                    ctxs.add((oid, b))
        return toks, ctxs

    def covered(self, toks, ctxs):
        L = self.lay
        out = set()
        for oid, b in toks:
            for f, n in (('filename', 8), ('data', 16), ('type', 4), ('line', 4), ('column', 4)):
                out |= {(oid, b + L['off_token_' + f] + i) for i in range(n)}
        for oid, b in ctxs:
            for f, n in (('text', 8), ('line', 4), ('column', 4)):
                out |= {(oid, b + L['off_context_' + f] + i) for i in range(n)}
        return out

    def havoc(self, eng, S0, S, M, samples):
        toks, ctxs = self.groups(S0, M)
        terms = [tok_term(eng, S0, self.lay, *g) for g in toks] + [ctx_term(eng, S0, self.lay, *g) for g in ctxs]
        w = None
        if terms:
            if not all(same(terms[0], t) for t in terms):
                raise Unsupported('loop over tokens whose context and token disagree')
            w = eng.fresh('w', 64)
        cov = self.covered(toks, ctxs)
        hv = {'tok': toks, 'ctx': ctxs, 'w': w, 'cells': {}, 'w0': terms[0] if terms else None}
        for key in M:
            oid, off, n = key
            if off is None:
                raise Unsupported('abstract object modified in a loop')
            if (oid, off) in cov:
                continue
            o = S.wobj(oid)
            c = o.cells.get(off)
            vals = [v for v in samples.get(key, []) if v is not None]
            if c is None:
                eng.clear(o, off, n)
                if vals and all(isinstance(x, int) or is_bv(x) for x in vals):
                    nv = eng.fresh('h', 8 * n)
                    o.cells[off] = (n, nv)
                    hv['cells'][key] = nv
                continue
            v = c[1]
            if isinstance(v, int) or is_bv(v):
                if any(not isinstance(x, int) and not is_bv(x) for x in vals):
                    eng.clear(o, off, n)
                    continue
                nv = eng.fresh('h', 8 * c[0])
            elif isinstance(v, P):
                if any(not isinstance(x, P) or x.o != v.o for x in vals):
                    eng.clear(o, off, n)     # dead between iterations or unreadable
                    continue
                nv = P(v.o, 0, ((1, eng.fresh('hp', 64)),))
            else:
                eng.clear(o, off, n)
                continue
            o.cells[off] = (c[0], nv)
            hv['cells'][key] = nv
        if w is not None:
            for oid, b in toks:
                self.tl.put_token(eng, S, P(oid, b), w)
            for oid, b in ctxs:
                for c in valid(w):
                    S.assume(c, True)
                self.tl.set_pos(eng, S, P(oid, b), NEXT(w))
        self.ghost_havoc(eng, S, w)
        return hv

    def where(self, eng, b, hv):
        """position of the loop's token in state b"""
        ts = [tok_term(eng, b, self.lay, *g) for g in hv['tok']] + [ctx_term(eng, b, self.lay, *g) for g in hv['ctx']]
        if any(t is None for t in ts):
            raise Unsupported('token structure not maintained by the loop')
        if not ts:
            return None
        if not all(same(ts[0], t) for t in ts):
            raise Unsupported('context and current token disagree after an iteration')
        return ts[0]

    def prepare_back(self, eng, S0, S, b, M, hv):
        w2 = self.where(eng, b, hv)
        self.ghost_step(eng, S, b, hv['w'], w2)

    def candidates(self, eng, S0, S, M, hv):
        out = []
        for key in list(hv['cells']):
            oid, off, n = key

            def get(st, key=key, eng=eng):
                oid, off, n = key
                o = st.mem.get(oid)
                if o is None:
                    return None
                c = o.cells.get(off)
                if c is None:
                    try:
                        v = eng.load_raw(st, o, off, n)
                    except Unsupported:
                        return None
                elif c[0] != n:
                    try:
                        v = eng.load_raw(st, o, off, n)
                    except Unsupported:
                        return None
                else:
                    v = c[1]
                if isinstance(v, int):
                    return z3.BitVecVal(v, 8 * n)
                return v if is_bv(v) else None
            out += self.ghost_cands(eng, key, get, S0)
        return out

    def progress(self, eng, S, b, hv, fn):
        w2 = self.where(eng, b, hv)
        if w2 is None:
            raise Unsupported('no measure for a loop in ' + fn)
        # the read position moves on: NEXT(t) > t for every token but the end
        s = b.clone()
        t = w2
        while z3.is_app(t) and t.num_args() >= 1 and not same(t, hv['w']):
            if t.decl().eq(NEXT):
                x = t.arg(0)
                s.assume(z3.If(TY(x) == 0, z3.UGE(t, x), z3.UGT(t, x)), True)
            t = t.arg(0)
        eng.oblige(s, z3.UGT(w2, hv['w']), 'terminates: every iteration consumes a token (%s)' % fn)

    def loop_events(self, eng, S0, S, b):
        raise Unsupported('side effects inside an abstracted loop')
