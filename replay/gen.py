"""Program texts for replay: the specification of each operand is run on a token list whose
tokens are invented as the specification asks about them."""
import random

from spec.ops import M64
from spec.operands import make, IMM, FLT, IDENT, REG, PRED, AT, SEMI, COMMA
from spec.tokens import ConS, Reject
from spec.oracle import all_forms, address, c_float, Fatal

TYPE_TEXT = {6: '+', 7: '-', 8: '~', 9: '|', 10: '[', 11: ']', 12: '@', 13: ';', 14: ','}

INTS = sorted({s * ((1 << k) + d) for k in range(0, 64) for d in (-1, 0, 1) for s in (1, -1)} |
              set(range(-20, 70)) | {0x7FFFF, -0x80000, 12345, 0xFFFF, 0x8000 * 4, -32768, -32764, 32764, 65532})
INTS = [v for v in INTS if -(1 << 63) <= v < (1 << 63)]
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 31, 32, 64, 100, 255, -1, -2, -4, -8, -16, 256, 1023, 511]
FLOATS = ['0.0', '-0.0', '1.0', '-1.0', '0.5', '-0.5', '2.0', '1.5', '3.14159', '-3.14159', '0.1', '65504.0',
          '65519.0', '65519.996', '65520.0', '-65520.0', '65536.0', '70000.0', '0.00006103515625', '0.00006097555160522461',
          '0.000000059604644775390625', '0.00000002980232238769531', '0.0000000298023223876953125',
          '0.00000002980232594040899', '0.0000001', '1.0009765625', '1.00048828125', '1.000488281250001', '1.00146484375',
          '1.0004', '-1.00048828125', '2049.0', '2051.0', '33554432.0', '16777217.0', '16777219.0', '340282346638528859811704183484516925440.0',
          '340282366920938463463374607431768211456.0', '-340282366920938463463374607431768211456.0',
          '0.' + '0' * 44 + '14', '0.' + '0' * 44 + '07', '0.' + '0' * 60 + '1', '-0.' + '0' * 60 + '1',
          '1.', '+1.5', '+0.0', '123456.789', '-123456.789', '0.333333333333', '1024.5', '0.99951171875', '0.999755859375',
          '0.99988', '5.960464477539063', '1.9990234375', '1.99951171875', '1.9995', '0.000030517578125', '0.0000305',
          '0.0000609', '-0.0000609', '4096.0', '8191.5', '8192.5', '12.8', '100.0', '255.5', '0.000123', '32768.0', '1000000.0']


class Rng:
    """random choices"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def flip(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)


class Tape:
    """systematic choices: every sequence in depth-first order"""

    def __init__(self):
        self.tape = []
        self.i = 0

    def choose(self, n):
        if self.i == len(self.tape):
            self.tape.append([0, n])
        v = min(self.tape[self.i][0], n - 1)   # the context may have changed the choices
        self.i += 1
        return v

    def flip(self, p):
        return self.choose(2) == 0

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def next(self):
        self.i = 0
        while self.tape and self.tape[-1][0] + 1 >= self.tape[-1][1]:
            self.tape.pop()
        if not self.tape:
            return False
        self.tape[-1][0] += 1
        return True


class GTok:
    __slots__ = ('type', 'text', 'value', 'neg', 'src', 'no', 'nos')

    def __init__(self):
        self.type = None
        self.text = self.value = self.src = None
        self.neg = False
        self.no = set()
        self.nos = set()

    def copy(self):
        t = GTok()
        t.type, t.text, t.value, t.neg, t.src = self.type, self.text, self.value, self.neg, self.src
        t.no, t.nos = set(self.no), set(self.nos)
        return t


class Cfg:
    def __init__(self, rng, ints=None, floats=None, regs=None, p=0.6):
        self.rng = rng
        self.ints = ints or SMALL
        self.floats = floats or FLOATS
        self.regs = regs or [0, 1, 2, 3, 4, 8, 100, 254, 255]
        self.p = p


class GenS(ConS):
    __slots__ = ('cfg',)

    def __init__(self, toks, i, V, R, pc, labels, cfg):
        super().__init__(toks, i, V, R, pc, labels)
        self.cfg = cfg

    def _new(self, **k):
        s = GenS(self.toks, self.i, self.V, self.R, self.pc, self.labels, self.cfg)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    @property
    def tok(self):
        while len(self.toks) <= self.i:
            self.toks.append(GTok())
        return self.toks[self.i]

    def ty(self, n):
        t = self.tok
        if t.type is not None:
            return t.type == n
        if n in t.no:
            return False
        if self.cfg.rng.flip(self.cfg.p):
            t.type = n
            return True
        t.no.add(n)
        return False

    def s(self, string):
        t = self.tok
        if t.type is not None and t.type != IDENT:
            return False
        if t.text is not None:
            return t.text == string
        if string in t.nos or (t.type is None and IDENT in t.no):
            return False
        if self.cfg.rng.flip(self.cfg.p * 0.7):
            t.type, t.text = IDENT, string
            return True
        t.nos.add(string)
        return False

    def table(self, entries):
        t = self.tok
        if t.type is not None and t.type != IDENT:
            return False, 0
        es = [(i, e) for i, e in enumerate(entries) if e is not None]
        if t.text is not None:
            for i, e in es:
                if e == t.text:
                    return True, i
            return False, 0
        if t.type is None and IDENT in t.no:
            return False, 0
        es = [(i, e) for i, e in es if e not in t.nos]
        if es and self.cfg.rng.flip(0.75):
            i, e = self.cfg.rng.pick(es)
            t.type, t.text = IDENT, e
            for j, f in enumerate(entries):
                if f == e:
                    return True, j
        t.nos.update(e for _, e in es)
        return False, 0

    def imm(self):
        t = self.tok
        if t.type is not None and t.type != IMM:
            return 0
        if t.value is None:
            t.value = self.cfg.rng.pick(self.cfg.ints)
        return t.value & M64

    def reg(self):
        t = self.tok
        if t.type is not None and t.type != REG:
            return 0
        if t.neg is False and t.src is None:
            t.src = self.cfg.rng.pick(self.cfg.regs)
        return t.src

    def pidx(self):
        t = self.tok
        if t.type is not None and t.type != PRED:
            return 0
        if t.value is None:
            t.value = self.cfg.rng.pick(list(range(8)))
            t.neg = self.cfg.rng.flip(0.4)
        return t.value

    def pneg(self):
        self.pidx()
        return int(self.tok.neg) if self.tok.type == PRED else 0

    def f32(self):
        t = self.tok
        if t.type is not None and t.type != FLT:
            return 0
        if t.text is None:
            t.text = self.cfg.rng.pick(self.cfg.floats)
        return c_float(t.text)[0]

    def has_label(self):
        t = self.tok
        if t.type != IDENT:
            return False
        if t.text is None:
            t.text = self.cfg.rng.pick(sorted(self.labels) or ['NOWHERE'])
        return t.text in self.labels

    def label(self):
        return self.labels.get(self.tok.text, 0) & M64

    def req(self, c, at=None):
        if not c:
            raise Reject(None)
        return self


def spell(t, rng):
    """source text of an invented token"""
    if t.type is None:
        for cand in (';', 'JUNK', ',', ']', '1'):
            if cand == ';' and SEMI not in t.no:
                return ';'
            if cand == 'JUNK' and IDENT not in t.no and cand not in t.nos:
                return 'JUNK'
            if cand == ',' and COMMA not in t.no:
                return ','
        return ']'
    if t.type == IDENT:
        if t.text is None:
            return 'JUNK'
        return t.text
    if t.type == REG:
        v = 0 if t.src is None else t.src
        return 'RZ' if v == 255 else 'R%d' % v
    if t.type == PRED:
        v = 7 if t.value is None else t.value
        return ('!' if t.neg else '') + ('PT' if v == 7 else 'P%d' % v)
    if t.type == IMM:
        v = 0 if t.value is None else t.value
        if isinstance(rng, Rng) and rng.flip(0.3):
            return ('-' if v < 0 else '') + '0x%X' % abs(v)
        return str(v)
    if t.type == FLT:
        return t.text if t.text is not None else '1.5'
    if t.type == 0:
        return ''
    return TYPE_TEXT[t.type]


def render(toks, rng):
    out = ''
    for t in toks:
        s = spell(t, rng)
        if out and not (s.startswith('.') or s in (',', ']')) and not out.endswith('['):
            out += ' '
        out += s
    return out


def gen_form(row, cfg, k=0, labels=None, focus=None, focus_cfg=None, guard=7, strict=True, tries=60):
    """tokens of one instruction of the form; operand number `focus` uses focus_cfg and may be
    anything when strict is False"""
    labels = {} if labels is None else labels
    toks = []
    i, V, R = 0, row.opcode | guard << 16, 0
    for n, sp in enumerate(row.specs):
        keep = [t.copy() for t in toks]
        c = focus_cfg if n == focus and focus_cfg is not None else cfg
        must = strict or n != focus
        for _ in range(tries):
            S = GenS(toks, i, V, R, address(k), labels, c)
            try:
                S = sp.f(S)
                i, V, R = S.i, S.V & M64, S.R
                break
            except Reject:
                if not must:
                    # keep the offending operand; later operands follow its last token
                    i = len(toks)
                    break
                toks[:] = [t.copy() for t in keep]
                if isinstance(c.rng, Tape):
                    return None
        else:
            return None
    # drop trailing invented-but-undecided tokens
    while toks and len(toks) > i and toks[-1].type is None:
        toks.pop()
    return toks


def form_text(row, toks, rng):
    t = render(toks, rng)
    sep = '' if t.startswith('.') or not t else ' '
    return row.mnemonic + sep + t
