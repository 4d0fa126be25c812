"""Token streams: symbolic (functions of a text position) and concrete (lists)."""
import z3
from .ops import *

W = z3.BitVecSort(64)
TY = z3.Function('tok_type', W, z3.BitVecSort(32))
W0 = z3.Function('tok_word', W, W)            # payload word: value, length, double bits, ...
FB = z3.Function('tok_f32', W, z3.BitVecSort(32))
NEXT = z3.Function('tok_end', W, W)           # text position after the token
TLINE = z3.Function('tok_line', W, z3.BitVecSort(32))
TCOL = z3.Function('tok_col', W, z3.BitVecSort(32))
PLINE = z3.Function('pos_line', W, z3.BitVecSort(32))
PCOL = z3.Function('pos_col', W, z3.BitVecSort(32))
HASL = z3.Function('has_label', W, z3.BoolSort())
LBL = z3.Function('label_addr', W, W)
SC = z3.Function('semicolons_before', W, W)   # semicolons of the text before a position
_B = {}


def BYTE(k):
    f = _B.get(k)
    if f is None:
        f = _B[k] = z3.Function('tok_char%d' % k, W, z3.BitVecSort(8))
    return f


def lift(f, t):
    """f over an if-then-else position"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = lift(f, t.arg(1)), lift(f, t.arg(2))
        return a if a.eq(b) else z3.If(t.arg(0), a, b)
    return f(t)


def valid(t):
    """what tokenize guarantees of the token at t"""
    ty, w = TY(t), W0(t)
    from vcg.fp import EXT, is_nan
    return [z3.ULE(ty, 14),
            z3.Implies(ty == 3, z3.And(z3.ULE(z3.Extract(31, 0, w), 7), z3.ULE(z3.Extract(63, 32, w), 1))),
            z3.Implies(ty == 1, z3.And(w != 0, z3.ULT(w, 1 << 31))),
            z3.Implies(ty == 5, z3.And(w == EXT(FB(t)), z3.Not(is_nan(FB(t), 32))))]


def semi(t):
    """semicolons before the token at t and after it (proved of the lexical grammar)"""
    return SC(NEXT(t)) == SC(t) + z3.If(TY(t) == 13, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


class SymS:
    """symbolic parse state"""
    __slots__ = ('t', 'V', 'R', 'acc', 'pc', 'log', 'ft')

    def __init__(self, t, V, R, acc, pc, log, ft=None):
        self.t, self.V, self.R, self.acc, self.pc, self.log = t, V, R, acc, pc, log
        self.ft = ft            # position of the token blamed when not acc

    def _new(self, **k):
        s = SymS(self.t, self.V, self.R, self.acc, self.pc, self.log, self.ft)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def touch(self):
        def go(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                go(t.arg(1))
                go(t.arg(2))
            else:
                self.log[t.get_id()] = t
        go(self.t)

    def ty(self, n):
        self.touch()
        return lift(lambda t: TY(t) == n, self.t)

    def s(self, string):
        self.touch()
        b = string.encode()
        return lift(lambda t: z3.And([TY(t) == 1, W0(t) == len(b)] +
                                     [BYTE(k)(t) == c for k, c in enumerate(b)]), self.t)

    def table(self, entries):
        found = False
        idx = 0
        for i in range(len(entries) - 1, -1, -1):
            if entries[i] is None:
                continue
            c = self.s(entries[i])
            found = Or(found, c)
            idx = ite(c, i, idx)
        return found, idx

    def imm(self):
        self.touch()
        return lift(W0, self.t)

    def reg(self):
        self.touch()
        return lift(lambda t: W0(t) & 0xFF, self.t)

    def pidx(self):
        self.touch()
        return lift(lambda t: W0(t) & 0xFFFFFFFF, self.t)

    def pneg(self):
        self.touch()
        return lift(lambda t: z3.LShR(W0(t), 32), self.t)

    def f32(self):
        self.touch()
        return lift(FB, self.t)

    def has_label(self):
        return lift(HASL, self.t)

    def label(self):
        return lift(LBL, self.t)

    def adv(self):
        self.touch()
        return self._new(t=lift(NEXT, self.t))

    def bits(self, b):
        return self._new(V=self.V | w64(b))

    def setV(self, v):
        return self._new(V=v)

    def reuse(self, f):
        return self._new(R=self.R | f)

    def req(self, c, at=None):
        ft = self.t if at is None else at
        if self.ft is not None:
            ft = ite(self.acc, ft, self.ft)
        return self._new(acc=And(self.acc, c), ft=ft)

    def here(self):
        return self.t

    def then(self, f):
        return f(self)

    def when(self, c, f, g=None):
        if isinstance(c, (bool, int)):
            return f(self) if c else (g(self) if g else self)
        base = self._new(acc=True, ft=None)
        a = f(base)
        b = g(base) if g else base
        ft = self.ft
        fa = a.ft if a.ft is not None else b.ft
        fb = b.ft if b.ft is not None else a.ft
        if fa is not None:
            ft = ite(c, fa, fb)
            if self.ft is not None:
                ft = ite(self.acc, ft, self.ft)
        return self._new(t=ite(c, a.t, b.t), V=ite(c, a.V, b.V), R=ite(c, a.R, b.R),
                         acc=And(self.acc, Or(And(c, a.acc), And(Not(c), b.acc))), ft=ft)


class Reject(Exception):
    def __init__(self, tok):
        self.tok = tok


class ConS:
    """concrete parse state: tokens is a list of Tok, i an index"""
    __slots__ = ('toks', 'i', 'V', 'R', 'pc', 'labels')

    def __init__(self, toks, i, V, R, pc, labels):
        self.toks, self.i, self.V, self.R, self.pc, self.labels = toks, i, V, R, pc, labels

    def _new(self, **k):
        s = ConS(self.toks, self.i, self.V, self.R, self.pc, self.labels)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    @property
    def tok(self):
        return self.toks.get(self.i)

    def ty(self, n):
        return self.tok.type == n

    def s(self, string):
        return self.tok.type == 1 and self.tok.text == string

    def table(self, entries):
        t = self.tok
        if t.type == 1:
            for i, e in enumerate(entries):
                if e is not None and e == t.text:
                    return True, i
        return False, 0

    def imm(self):
        return self.tok.value & M64 if self.tok.type == 4 else 0

    def reg(self):
        return self.tok.value if self.tok.type == 2 else 0

    def pidx(self):
        return self.tok.value if self.tok.type == 3 else 0

    def pneg(self):
        return int(self.tok.neg) if self.tok.type == 3 else 0

    def f32(self):
        return self.tok.value if self.tok.type == 5 else 0

    def has_label(self):
        return self.tok.type == 1 and self.tok.text in self.labels

    def label(self):
        return self.labels[self.tok.text] & M64

    def adv(self):
        return self._new(i=self.i + 1)

    def bits(self, b):
        return self._new(V=self.V | b)

    def setV(self, v):
        return self._new(V=v)

    def reuse(self, f):
        return self._new(R=self.R | f)

    def req(self, c, at=None):
        if not c:
            raise Reject(self.toks.get(self.i if at is None else at))
        return self

    def here(self):
        return self.i

    def then(self, f):
        return f(self)

    def when(self, c, f, g=None):
        return f(self) if c else (g(self) if g else self)
