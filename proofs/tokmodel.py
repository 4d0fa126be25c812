"""Contracts of the token layer, shared by every unit above the tokenizer.

A text position t stands for the token that starts at or after t; its kind, payload, end
and place are functions of t (spec.tokens).  tokenize() maps position t to the struct of
Tok(t) and moves the context to NEXT(t).  The tokenizer unit proves that contract.
"""
import re
import z3

from vcg.engine import *
from vcg.engine import bv
from spec import tokens as T
from spec.tokens import TY, W0, FB, NEXT, TLINE, TCOL, PLINE, PCOL, HASL, LBL, BYTE, valid

TEXT = 'text'
FNAME = 'filename'
FMT = re.compile(r'%[-+ #0]*(\*|\d+)?(\.(?:\*|\d*))?(hh|h|ll|l|z|j|t|L)?(.)', re.S)


class StrMeta:
    """bytes of the word of token t"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, StrMeta) and self.t.eq(o.t)

    __hash__ = None

    def load(self, eng, st, p, n, ty):
        if p.t:
            raise Unsupported('symbolic index into a word')
        st = eng.oblige(st, TY(self.t) == 1, eng.oname('token kind', 'word of a token that is not a word'))
        if st is None:
            return []
        st = eng.oblige(st, z3.And(z3.ULT(z3.BitVecVal(p.c + n - 1, 64), W0(self.t))),
                        eng.oname('memory safety', 'read past the end of a word'))
        if st is None:
            return []
        bs = [BYTE(p.c + i)(self.t) for i in range(n)]
        return [(st, bs[0] if n == 1 else z3.Concat(list(reversed(bs))))]

    def store(self, eng, st, p, n, v):
        raise Unsupported('store into source text')


class TextMeta:
    def load(self, eng, st, p, n, ty):
        raise Unsupported('raw text read above the tokenizer')

    def store(self, eng, st, p, n, v):
        raise Unsupported('store into source text')


TEXT_META = TextMeta()


def str_ptr(st, t):
    oid = 'str:%d' % t.get_id()
    if oid not in st.mem:
        st.mem[oid] = Obj('plug', None, 'word', meta=StrMeta(t))
    return P(oid, 0)


def err_handle(line, col):
    return z3.Concat(z3.BitVecVal(1, 1), z3.Extract(30, 0, bv(line, 32)), bv(col, 32))


def split_lift(eng, st, t):
    """a position that is an if-then-else is split on its condition"""
    if isinstance(t, int):
        t = z3.BitVecVal(t, 64)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = eng.split(st, t.arg(0))
        out = []
        if a is not None:
            out += split_lift(eng, a, t.arg(1))
        if b is not None:
            out += split_lift(eng, b, t.arg(2))
        return out
    return [(st, t)]


class TokLayer:
    """installs the contracts; lay: compiler layout"""

    def __init__(self, lay):
        self.lay = lay

    # ---------------------------------------------------------------- states
    def put_token(self, eng, st, p, t):
        L = self.lay
        for c in valid(t):
            st.assume(c, True)
        o = st.wobj(p.o)
        eng.clear(o, p.c, L['size_token'])
        b = p.c
        o.cells[b + L['off_token_filename']] = (8, P(FNAME, 0))
        o.cells[b + L['off_token_data']] = (8, W0(t))
        o.cells[b + L['off_token_data'] + 8] = (8, str_ptr(st, t))
        o.cells[b + L['off_token_type']] = (4, TY(t))
        o.cells[b + L['off_token_line']] = (4, TLINE(t))
        o.cells[b + L['off_token_column']] = (4, TCOL(t))

    def set_pos(self, eng, st, ctx, u):
        """context read position := u"""
        L = self.lay
        eng.put(st, ctx.o, ctx.c + L['off_context_text'], 8, P(TEXT, 0, ((1, u),)))
        eng.put(st, ctx.o, ctx.c + L['off_context_line'], 4, PLINE(u))
        eng.put(st, ctx.o, ctx.c + L['off_context_column'], 4, PCOL(u))

    def init(self, eng, st):
        st.mem[TEXT] = Obj('plug', None, 'source text', meta=TEXT_META)
        st.mem[FNAME] = Obj('bytes', None, 'file name', default=lambda i: eng.fresh('fn', 8))

    def new_ctx(self, eng, st, u, pc):
        L = self.lay
        ctx = st.alloc(L['size_context'], 'context')
        o = st.wobj(ctx.o)
        o.cells[L['off_context_pc']] = (8, pc)
        o.cells[L['off_context_filename']] = (8, P(FNAME, 0))
        o.cells[L['off_context_text_begin']] = (8, P(TEXT, 0))
        # the remaining fields: arbitrary but fixed
        known = {L['off_context_pc']: 8, L['off_context_filename']: 8, L['off_context_text_begin']: 8,
                 L['off_context_text']: 8, L['off_context_line']: 4, L['off_context_column']: 4}
        i = 0
        while i < L['size_context']:
            if i in known:
                i += known[i]
                continue
            o.cells[i] = (1, z3.BitVec('ctx%d' % i, 8))
            i += 1
        self.set_pos(eng, st, ctx, u)
        return ctx

    def ctx_frame(self, eng, st0, st, ctx, name, skip=()):
        """obligation: every context byte outside the read position is unchanged"""
        L = self.lay
        pos = [(L['off_context_text'], 8), (L['off_context_line'], 4), (L['off_context_column'], 4)] + list(skip)
        a, b = st0.mem[ctx.o], st.mem[ctx.o]
        offs = set(a.cells) | set(b.cells)
        bad = []
        for off in sorted(offs):
            if any(s <= off < s + n for s, n in pos):
                continue
            x, y = a.cells.get(off), b.cells.get(off)
            if x is None or y is None or x[0] != y[0]:
                bad.append(off)
            elif not same(x[1], y[1]):
                if is_bv(x[1]) or is_bv(y[1]):
                    n = 8 * x[0]
                    st = eng.oblige(st, bv(x[1], n) == bv(y[1], n), name)
                    if st is None:
                        return None
                else:
                    bad.append(off)
        if bad:
            return eng.oblige(st, 0, name, 'context bytes %s changed' % bad)
        return eng.oblige(st, 1, name)

    def pos_of(self, st, ctx):
        c = st.mem[ctx.o].cells.get(ctx.c + self.lay['off_context_text'])
        v = c[1] if c else None
        if not isinstance(v, P) or v.o != TEXT:
            raise Unsupported('read position is not a text position')
        u = poff(v)
        return z3.BitVecVal(u, 64) if isinstance(u, int) else u

    # ---------------------------------------------------------------- contracts
    def c_tokenize(self, eng, st, args, rt):
        dst, ctx = args[0], args[1]
        out = []
        for s, t in split_lift(eng, st, self.pos_of(st, ctx)):
            # requires: the context sits at a position it reached by tokenizing
            for off, f in (('off_context_line', PLINE), ('off_context_column', PCOL)):
                c = s.mem[ctx.o].cells.get(ctx.c + self.lay[off])
                if c is None or not same(c[1], f(t)):
                    s = eng.oblige(s, bv(c[1], 32) == f(t) if c else 0,
                                   eng.oname('frame', 'line and column match the read position'))
                    if s is None:
                        break
            if s is None:
                continue
            self.put_token(eng, s, dst, t)
            self.set_pos(eng, s, ctx, NEXT(t))
            out.append((s, None))
        return out

    def token_pos(self, eng, st, tok, out_fields=('line', 'column')):
        r = []
        for f in out_fields:
            x = eng.load(st, padd(tok, self.lay['off_token_' + f]), ('i', 32))
            if len(x) != 1:
                raise Unsupported('token position')
            r.append(x[0][1])
        return r

    def fmt_guard(self, eng, st, fmt, args):
        """requires of a formatted diagnostic: the format is a constant, there is an argument of the
        right kind for each of its conversions, and words are printed with a length inside the word"""
        nm = eng.oname('memory safety', 'arguments of a diagnostic match its format')
        if isinstance(fmt, P) and isinstance(fmt.o, str) and fmt.o.startswith('anyof:'):
            for g in members(fmt):
                eng.global_ptr(st, g[2:])
                st = self.fmt_guard(eng, st, P(g, 0), args)
                if st is None:
                    return None
            return st
        s = cstring(eng, st, fmt)
        if s is None:
            if isinstance(fmt, P) and fmt.o in st.mem and isinstance(st.mem[fmt.o].meta, (StrMeta, TextMeta)):
                return eng.oblige(st, 0, nm)
            raise Unsupported('format of a diagnostic')
        left = list(args)
        i32 = lambda a: isinstance(a, int) or (is_bv(a) and a.size() in (32, 64))
        for m in FMT.finditer(s.decode('latin-1')):
            width, prec, mod, conv = m.groups()
            if conv == '%':
                continue
            p = None
            for x in (width, prec):
                if x == '*' or x == '.*':
                    if not left or not i32(left[0]):
                        return eng.oblige(st, 0, nm)
                    v = left.pop(0)
                    # an int; a wider argument is read by its low half on this ABI
                    w = v
                    st = eng.oblige(st, z3.ULT(w, 1 << 31) if is_bv(w) else int(0 <= w < 1 << 31), nm)
                    if st is None:
                        return None
                    if x == '.*':
                        p = w
                elif x and x.startswith('.'):
                    p = int(x[1:] or 0)
            if not left or conv == 'n':
                return eng.oblige(st, 0, nm)
            v = left.pop(0)
            if conv in 'sp':
                if isinstance(v, int) and v == 0 and isinstance(p, int) and p == 0:
                    continue            # nothing printed from an empty view
                if not isinstance(v, P):
                    return eng.oblige(st, 0, nm)
                o = st.mem.get(v.o)
                if conv == 's' and o is not None and isinstance(o.meta, StrMeta):
                    if p is None:
                        return eng.oblige(st, 0, nm)
                    off = poff(v)
                    n = (z3.ZeroExt(32, p) if p.size() == 32 else p) if is_bv(p) else z3.BitVecVal(p, 64)
                    o64 = bv(off, 64)
                    ln = W0(o.meta.t)
                    st = eng.oblige(st, z3.And(z3.ULE(o64, ln), z3.ULE(n, ln - o64)), nm)
                    if st is None:
                        return None
            elif conv in 'diouxXc':
                want = 64 if mod in ('l', 'll', 'z', 'j', 't') else 32
                if not (isinstance(v, int) or is_bv(v)) or (is_bv(v) and v.size() < want):
                    return eng.oblige(st, 0, nm)
            elif isinstance(v, P):
                return eng.oblige(st, 0, nm)
        return eng.oblige(st, 1, nm)

    def va_guard(self, eng, st, args):
        """variadic arguments that point at words are only words of word tokens"""
        for a in args:
            if isinstance(a, P) and a.o in st.mem and isinstance(st.mem[a.o].meta, StrMeta):
                st = eng.oblige(st, TY(st.mem[a.o].meta.t) == 1,
                                eng.oname('token kind', 'word of a token that is not a word'))
                if st is None:
                    return None
        return st

    def diag_checks(self, eng, st, tok):
        fn = eng.load(st, padd(tok, self.lay['off_token_filename']), ('p',))
        if len(fn) != 1 or not (isinstance(fn[0][1], P) and fn[0][1].o == FNAME):
            return eng.oblige(st, 0, eng.oname('diagnostic', 'names the source file'))
        return st

    def c_fail(self, eng, st, args, rt):
        dst, tok = args[0], args[1]
        st = self.va_guard(eng, st, args[3:])
        if st is None:
            return []
        st = self.fmt_guard(eng, st, args[2], args[3:])
        if st is None:
            return []
        st = self.diag_checks(eng, st, tok)
        if st is None:
            return []
        line, col = self.token_pos(eng, st, tok)
        return [(s, None) for s in eng.store(st, dst, ('i', 64), err_handle(line, col))]

    def c_fatal(self, eng, st, args, rt):
        tok = args[0]
        st = self.va_guard(eng, st, args[2:])
        if st is None:
            return []
        st = self.fmt_guard(eng, st, args[1], args[2:])
        if st is None:
            return []
        st = self.diag_checks(eng, st, tok)
        if st is None:
            return []
        line, col = self.token_pos(eng, st, tok)
        eng.terminals.append(('fatal', st, (line, col)))
        return []

    def c_fatal_plain(self, eng, st, args, rt):
        st = self.fmt_guard(eng, st, args[0], args[1:])
        if st is None:
            return []
        eng.terminals.append(('fatal', st, None))
        return []

    def c_raise(self, eng, st, args, rt):
        h = eng.load(st, args[0], ('i', 64))
        eng.terminals.append(('raise', h[0][0], h[0][1]))
        return []

    def c_find_label(self, eng, st, args, rt):
        ln, p = args[1], args[2]
        if not isinstance(p, P) or p.o not in st.mem or not isinstance(st.mem[p.o].meta, StrMeta):
            raise Unsupported('find_label of something that is not a word')
        t = st.mem[p.o].meta.t
        st = eng.oblige(st, TY(t) == 1, eng.oname('token kind', 'label looked up from a token that is not a word'))
        if st is None:
            return []
        if p.c != 0 or p.t or not same(ln, W0(t)):
            st = eng.oblige(st, z3.And(bv(poff(p), 64) == 0, bv(ln, 64) == W0(t)),
                            eng.oname('labels', 'looks up the whole word'))
            if st is None:
                return []
        return [(st, (LBL(t), bv(HASL(t), 8)))]

    # strings
    def sv_eq(self, eng, st, l1, p1, l2, p2):
        """-> (state, z3 Bool / int) equality of two strings, or NotImplemented"""
        def word(p):
            return isinstance(p, P) and p.o in st.mem and isinstance(st.mem[p.o].meta, StrMeta) and not p.t
        if word(p2) and not word(p1):
            l1, p1, l2, p2 = l2, p2, l1, p1
        if not word(p1):
            a, b = cbytes(eng, st, p1, l1), cbytes(eng, st, p2, l2)
            if a is None or b is None:
                return NotImplemented
            return st, int(a == b)
        b = cbytes(eng, st, p2, l2)
        if b is None:
            return NotImplemented
        t = st.mem[p1.o].meta.t
        if b:
            st = eng.oblige(st, TY(t) == 1, eng.oname('token kind', 'word of a token that is not a word'))
            if st is None:
                return None, 0
            # requires: the view lies inside the word
            inside = z3.And(z3.ULE(bv(p1.c, 64), W0(t)), z3.ULE(bv(l1, 64), W0(t) - bv(p1.c, 64)))
            st = eng.oblige(st, inside, eng.oname('memory safety', 'string view inside its word'))
            if st is None:
                return None, 0
        if not p1.c and same(l1, W0(t)):
            k = self.known_word(eng, st, t, b)
            if k is not None:
                return st, k
        cs = [bv(l1, 64) == len(b)] + [BYTE(p1.c + i)(t) == c for i, c in enumerate(b)]
        return st, fold(z3.And(cs))

    def known_word(self, eng, st, t, b):
        """the unit fixed this word (or excluded words): equality without a query; the fact itself is
        checked once per state"""
        for e in st.gh.get('words', ()):
            if e[0] != t.get_id() or not e[2].eq(t):
                continue
            ok = st.gh.get('words_ok', ())
            if e not in ok:
                if e[1] is not None:
                    c = z3.And([W0(t) == len(e[1])] + [BYTE(k)(t) == x for k, x in enumerate(e[1])])
                else:
                    c = z3.And([z3.Not(z3.And([W0(t) == len(s)] + [BYTE(k)(t) == x for k, x in enumerate(s)])) for s in e[3]])
                if eng.check(st, z3.Not(c)) != 'unsat':
                    return None
                st.gh['words_ok'] = ok + (e,)
            if e[1] is not None:
                return int(e[1] == b)
            return 0 if b in e[3] else None
        return None

    def ret_cmp(self, eng, st, eq):
        if isinstance(eq, int):
            if eq:
                return [(st, 0)]
            eq = z3.BoolVal(False)
        u = z3.Concat(eng.fresh('cmp', 31), z3.BitVecVal(1, 1))
        return [(st, z3.If(eq, z3.BitVecVal(0, 32), u))]

    def load_sv(self, eng, st, p):
        a = eng.load(st, p, ('i', 64))
        b = eng.load(st, padd(p, 8), ('p',))
        if len(a) != 1 or len(b) != 1:
            return None
        return a[0][1], b[0][1]

    def c_compare(self, eng, st, args, rt):
        sv = self.load_sv(eng, st, args[0])
        if sv is None:
            return NotImplemented
        if len(args) == 3:
            l2, p2 = args[1], args[2]
        elif len(args) == 2:
            s = cstring(eng, st, args[1])
            if s is None:
                return NotImplemented
            l2, p2 = len(s), args[1]
        else:
            return NotImplemented
        r = self.sv_eq(eng, st, sv[0], sv[1], l2, p2)
        if r is NotImplemented:
            return r
        st, eq = r
        if st is None:
            return []
        return self.ret_cmp(eng, st, eq)

    def c_sv_opeq(self, eng, st, args, rt):
        if len(args) != 4:
            return NotImplemented
        r = self.sv_eq(eng, st, args[0], args[1], args[2], args[3])
        if r is NotImplemented:
            return r
        st, eq = r
        if st is None:
            return []
        return [(st, eq)]

    def c_memcmp(self, eng, st, args, rt):
        p1, p2, n = args
        if isinstance(n, int) and n == 0:
            return [(st, 0)]
        out = []
        for s, k in (eng.concretize(st, n, 32) if not isinstance(n, int) else [(st, n)]):
            if k == 0:
                out.append((s, 0))
                continue
            r = self.sv_eq(eng, s, k, p1, k, p2)
            if r is NotImplemented:
                return r
            s, eq = r
            if s is not None:
                out += self.ret_cmp(eng, s, eq)
        return out

    def c_half(self, eng, st, args, rt):
        from vcg import fp
        if rt != ('i', 16) or len(args) != 1:
            return NotImplemented
        if isinstance(args[0], int):
            from spec.ops import f16_rne
            return [(st, f16_rne(args[0]))]
        return [(st, fp.H16(args[0]))]

    def install(self, eng):
        install_base(eng)
        eng.contracts += [
            (by_name(r'^context::tokenize\(\)$'), self.c_tokenize),
            (by_name(r'^fail\(token const&, char const\*, \.\.\.\)$'), self.c_fail),
            (by_name(r'^fatal_error\(token const&, char const\*, \.\.\.\)$'), self.c_fatal),
            (by_name(r'^fatal_error\(char const\*, \.\.\.\)$'), self.c_fatal_plain),
            (by_name(r'^error::raise\(\)$'), self.c_raise),
            (by_name(r'^context::find_label\('), self.c_find_label),
            (by_name(r'^std::basic_string_view<char, std::char_traits<char> ?>::compare\((char const\*|std::basic_string_view<char, std::char_traits<char> ?>)\) const$'), self.c_compare),
            (by_name(r'^bool std::operator==<char, std::char_traits<char> ?>\(std::basic_string_view<char, std::char_traits<char> ?>, '), self.c_sv_opeq),
            (by_name(r'^unsigned short fp32_to_fp16<\(std::float_round_style\)1>\(float\)$'), self.c_half),
            (by_name(r'^memcmp$|^std::char_traits<char>::compare\('), self.c_memcmp),
        ]
