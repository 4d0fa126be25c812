"""What the assembler must do with a given source text, from the properties alone.

Outcome of assembling: ('ok', [words], parts) or ('reject', (line, column) or None, why).
The operand semantics is spec.operands, the instruction forms are spec.isa; nothing here is
read from /repo.
"""
import ctypes
import struct

from .ops import M64
from .operands import make, IMM, IDENT, PRED, AT, SEMI, NONE
from .tokens import ConS, Reject
from . import isa

_libc = ctypes.CDLL(None, use_errno=True)
_libc.strtof.restype = ctypes.c_float
_strtoll = getattr(_libc, '__isoc23_strtoll', None) or _libc.strtoll
_strtoll.restype = ctypes.c_longlong
ERANGE = 34

BLANK = ' \t\r\n'
OPS = {'+': 6, '-': 7, '~': 8, '|': 9, '[': 10, ']': 11, '@': 12, ';': 13, ',': 14}
SEP = set(BLANK) | {'.'} | set(OPS) | {'\0'}
ALPHA = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = set('0123456789')


class Fatal(Exception):
    """malformed text: position of the token"""

    def __init__(self, pos, why):
        self.pos = pos
        self.why = why


class Tok:
    __slots__ = ('type', 'text', 'value', 'neg', 'line', 'col', 'begin', 'end')

    def __init__(self, ty, line, col):
        self.type, self.line, self.col = ty, line, col
        self.text = None
        self.value = 0
        self.neg = False

    @property
    def pos(self):
        return (self.line, self.col)

    def __repr__(self):
        return 'Tok(%d,%r,%r@%d:%d)' % (self.type, self.text, self.value, self.line, self.col)


def c_int(s, base=0):
    """(value, length consumed, out of range)"""
    b = ctypes.create_string_buffer(s.encode('latin-1'))
    e = ctypes.c_char_p()
    end = ctypes.c_void_p()
    ctypes.set_errno(0)
    v = _strtoll(ctypes.cast(b, ctypes.c_void_p), ctypes.byref(end), base)
    return v, end.value - ctypes.addressof(b), ctypes.get_errno() == ERANGE


def c_float(s):
    b = ctypes.create_string_buffer(s.encode('latin-1'))
    end = ctypes.c_void_p()
    v = _libc.strtof(ctypes.cast(b, ctypes.c_void_p), ctypes.byref(end))
    return struct.unpack('<I', struct.pack('<f', v))[0], end.value - ctypes.addressof(b)


class Lexer:
    """tokens on demand: get(i) is the i-th token of the text"""

    def __init__(self, text):
        self.s = text + '\0'
        self.p = 0
        self.line = self.col = 0
        self.toks = []
        self.err = None

    def get(self, i):
        while len(self.toks) <= i:
            if self.err is not None:
                raise self.err
            try:
                self.toks.append(self.scan())
            except Fatal as e:
                self.err = e
                raise
        return self.toks[i]

    def step(self, n=1):
        for _ in range(n):
            c = self.s[self.p]
            self.p += 1
            if c == '\n':
                self.line += 1
                self.col = 0
            elif c == '\t':
                self.col += 4
            else:
                self.col += 1

    def scan(self):
        while True:
            t = self.scan1()
            if t is not None:
                return t

    def scan1(self):
        s = self.s
        while s[self.p] in BLANK:
            self.step()
        t = Tok(0, self.line, self.col)
        t.begin = self.p
        p = self.p
        c = s[p]
        if c == '\0':
            t.end = p
            return t
        nxt = s[p + 1]
        signed = c in '+-' and nxt in DIGIT
        if c in OPS and not signed:
            t.type = OPS[c]
            return self.fin(t, p + 1)
        if c in '!Pp':
            q = p
            if c == '!':
                q += 1
                if s[q] not in 'Pp':
                    raise Fatal(t.pos, "'!' without a predicate")
            q += 1
            if s[q] in SEP:
                raise Fatal(t.pos, 'predicate without index')
            if (s[q] in 'Tt' or s[q] in DIGIT) and s[q + 1] in SEP:
                t.type = PRED
                t.neg = c == '!'
                if s[q] in 'Tt':
                    t.value = 7
                else:
                    t.value = int(s[q])
                    if t.value > 6:
                        raise Fatal(t.pos, 'predicate out of range')
                return self.fin(t, q + 1)
        if (c in DIGIT and nxt != 'D') or signed:
            q = p
            hexa = False
            while s[q] in DIGIT or s[q] in '+-' or s[q] in 'AaBbCcDdEeFfXx':
                hexa |= s[q] in 'AaBbCcDdEeFfXx'
                q += 1
            flt = s[q] == '.'
            if flt:
                if hexa:
                    raise Fatal(t.pos, 'fraction after hex characters')
                q += 1
                while s[q] in DIGIT:
                    q += 1
            if s[q] not in SEP:
                raise Fatal(t.pos, 'literal runs into other characters')
            lit = s[p:q]
            if flt:
                t.type = 5
                t.value, n = c_float(lit)
            else:
                t.type = IMM
                t.value, n, over = c_int(lit)
                if over and n == len(lit):
                    raise Fatal(t.pos, 'integer too large')
            if n != len(lit):
                raise Fatal(t.pos, 'malformed literal')
            return self.fin(t, q)
        if c == 'R':
            q = p + 1
            if s[q] == 'Z':
                if s[q + 1] not in SEP:
                    raise Fatal(t.pos, 'RZ runs into other characters')
                t.type, t.value = 2, 255
                return self.fin(t, q + 1)
            if s[q] in SEP:
                raise Fatal(t.pos, 'register without index')
            while s[q] in DIGIT:
                q += 1
            if s[q] in SEP:
                t.type = 2
                t.value = int(s[p + 1:q].lstrip("0")[:9] or "0")
                if t.value > 254:
                    raise Fatal(t.pos, 'register out of range')
                return self.fin(t, q)
        q = p + 1
        if c in '!Pp' or c == 'R':
            # the prefix examined above belongs to the word
            pass
        while s[q] not in SEP:
            q += 1
        t.type = IDENT
        t.text = s[p:q]
        self.fin(t, q)
        if t.text.endswith(':'):
            return None
        return t

    def fin(self, t, q):
        self.step(q - self.p)
        t.end = q
        return t


def labels_of(text):
    """name -> byte address of the next instruction"""
    out = {}
    n = 0
    for line in text.split('\n'):
        i = 0
        if line and line[0] in ALPHA:
            while i < len(line) and (line[i] in ALPHA or line[i] in DIGIT or line[i] == '_'):
                i += 1
            if i < len(line) and line[i] == ':':
                out.setdefault(line[:i], address(n))
        n += line.count(';')
    return out


def address(k):
    return 8 * (k + k // 3 + 1)


TYPES = {'vertex': 0, 'tess_control': 1, 'hull': 1, 'tess_eval': 2, 'domain': 2, 'geometry': 3,
         'fragment': 4, 'pixel': 4, 'compute': 5}
INT_MAX = 2 ** 31 - 1


class Props:
    def __init__(self):
        self.type = None
        self.dksh = False
        self.num_gprs = 8
        self.local = 0
        self.shared = 0
        self.block = [1, 1, 1]


def directive(L, i, P):
    """directive at token i; returns the index of the token after it"""
    t = L.get(i)
    line = t.line
    i += 1

    def value(hi):
        nonlocal i
        v = L.get(i)
        if v.type != IMM:
            raise Fatal(v.pos, 'directive without value')
        if v.value < 0 or v.value > hi:
            raise Fatal(v.pos, 'directive value out of range')
        i += 1
        return v

    def online(v):
        if v.line != line:
            raise Fatal(v.pos, 'directive value on another line')
        return v.value
    if t.text in ('.dksh', '.type'):
        if t.text == '.dksh':
            P.dksh = True
        if P.type is not None:
            raise Fatal(t.pos, 'type given twice')
        v = L.get(i)
        if v.line != line:
            raise Fatal(v.pos, 'type on another line')
        if v.type != IDENT or v.text not in TYPES:
            raise Fatal(v.pos, 'unknown type')
        P.type = TYPES[v.text]
        i += 1
    elif t.text == '.num_gprs':
        P.num_gprs = online(value(INT_MAX))
    elif t.text == '.workgroup_size':
        vs = [value(INT_MAX) for _ in range(3)]
        online(vs[2])
        P.block = [v.value for v in vs]
    elif t.text == '.shared_memory':
        P.shared = online(value(INT_MAX))
    elif t.text == '.local_memory':
        P.local = online(value(0xFFFFFF))
    t = L.get(i)
    if t.line == line:
        raise Fatal(t.pos, 'text after the directive')
    return i


def sched(L, i):
    """annotations at token i -> (control field, index after)"""
    stall = wb = rb = None
    dep = 0
    y = False
    while L.get(i).type == AT:
        i += 1
        t = L.get(i)
        name = t.text if t.type == IDENT else None

        def num(hi):
            nonlocal i
            i += 1
            v = L.get(i)
            if v.type != IMM or not 0 <= v.value <= hi:
                raise Reject(v)
            i += 1
            L.get(i)
            return v
        if name == 'WAIT':
            if stall is not None:
                raise Reject(t)
            stall = num(15).value
        elif name == 'WB':
            if wb is not None:
                raise Reject(t)
            wb = num(5).value
        elif name == 'RB':
            if rb is not None:
                raise Reject(t)
            rb = num(5).value
        elif name in ('Y', 'YIELD'):
            if y:
                raise Reject(t)
            y = True
            i += 1
            L.get(i)
        elif name == 'DEP':
            i += 1
            v = L.get(i)
            if v.type != IMM or not 0 <= v.value <= 5 or dep >> v.value & 1:
                raise Reject(v)
            dep |= 1 << v.value
            i += 1
            L.get(i)
        else:
            raise Reject(t)
    return ((stall or 0) | int(y) << 4 | (7 if wb is None else wb) << 5 |
            (7 if rb is None else rb) << 8 | dep << 11), i


_rows = None


def forms(mn):
    global _rows
    if _rows is None:
        _rows = {}
        for r in isa.load():
            r.specs = [make(k) for k in r.keys]
            _rows.setdefault(r.mnemonic, []).append(r)
    return _rows.get(mn, [])


def all_forms():
    forms('')
    return [r for rs in _rows.values() for r in rs]


def form_mask(r):
    if not hasattr(r, 'mask'):
        r.mask = 0
        for s in r.specs:
            r.mask |= s.mask
    return r


class Insn:
    __slots__ = ('value', 'reuse', 'sched', 'row', 'begin', 'end', 'mn')


class ConT(ConS):
    """concrete state that looks one token ahead, as every operand leaves the next token ready"""
    __slots__ = ()

    def _new(self, **k):
        s = ConT(self.toks, self.i, self.V, self.R, self.pc, self.labels)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def adv(self):
        self.toks.get(self.i + 1)
        return self._new(i=self.i + 1)


def instruction(L, i, k, labels):
    """instruction number k at token i -> (Insn, next index)"""
    t = L.get(i)
    guard = 7
    if t.type == AT:
        i += 1
        t = L.get(i)
        if t.type != PRED:
            raise Fatal(t.pos, 'guard is not a predicate')
        guard = t.value | int(t.neg) << 3
        i += 1
        t = L.get(i)
    if t.type != IDENT:
        raise Fatal(t.pos, 'no mnemonic')
    i += 1
    best = (-1, None)
    rows = forms(t.text)
    if not rows:
        raise Fatal(t.pos, 'unknown mnemonic')
    for r in rows:
        score = 0
        try:
            first = L.get(i)
            if r.nopred and guard & 7 != 7:
                raise Reject(first)
            S = ConT(L, i, r.opcode | guard << 16, 0, address(k), labels)
            score = 1
            for sp in r.specs:
                S = sp.f(S)
                score += 1
            score += 1000
            ctl, j = sched(L, S.i)
            end = L.get(j)
            if end.type != SEMI:
                raise Reject(end)
            n = Insn()
            n.value, n.reuse, n.sched, n.row, n.mn = S.V & M64, S.R, ctl, r, t
            return n, j + 1
        except Reject as e:
            if score > best[0]:
                best = (score, e.tok)
    raise Fatal(best[1].pos, 'no form accepts the operands')


PAD = 0x50B0000000070F00


def layout(insns):
    out = []
    for g in range(0, len(insns), 3):
        ctl = 0
        words = []
        for k in range(3):
            if g + k < len(insns):
                n = insns[g + k]
                lane = n.sched | n.reuse << 17
                words.append(n.value)
            else:
                lane = 0x7E0
                words.append(PAD)
            ctl |= lane << 21 * k
        out += [ctl] + words
    return out


def container(code, P, labels):
    if P.type is not None and P.type != 5 and not P.dksh:
        raise Fatal(None, 'graphics headers are not supported')
    if not P.dksh:
        return code
    if 'main' not in labels:
        raise Fatal(None, 'no main')
    if labels['main'] % 32 != 8:
        raise Fatal(None, 'main is not at the start of a group')
    if P.type != 5:
        raise Fatal(None, 'graphics headers are not supported')
    loc = (P.local + 15) // 16 * 16
    n = (len(code) + 31) // 32 * 32
    h = [0x48534B44, 24, 256, n * 8, 24, 1,
         5, labels['main'] - 8, P.num_gprs, 0, 0, 32 * loc + 0x800,
         P.block[0], P.block[1], P.block[2], (P.shared + 255) // 256 * 256 & 0xFFFFFFFF, loc, 0, 0x800]
    h += [0] * (64 - len(h))
    head = [h[2 * i] & 0xFFFFFFFF | (h[2 * i + 1] & 0xFFFFFFFF) << 32 for i in range(32)]
    return head + code + [0] * (n - len(code))


class Result:
    __slots__ = ('ok', 'words', 'pos', 'why', 'insns', 'props', 'labels', 'toks')


def assemble(text):
    """text: str of latin-1 characters without NUL"""
    R = Result()
    R.insns = []
    R.props = P = Props()
    R.labels = labels = labels_of(text)
    L = Lexer(text)
    R.toks = L.toks
    i = 0
    R.pos = None
    R.why = None
    R.words = None
    try:
        while True:
            t = L.get(i)
            if t.type == NONE:
                break
            while t.type == IDENT and t.text[0] == '.':
                i = directive(L, i, P)
                t = L.get(i)
            n, i = instruction(L, i, len(R.insns), labels)
            R.insns.append(n)
        R.words = container(layout(R.insns), P, labels)
        R.ok = True
    except Fatal as e:
        R.ok = False
        R.pos = e.pos
        R.why = e.why
    return R
