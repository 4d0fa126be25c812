"""Diagnostics: fail, fatal_error and error::raise against what is seen on standard error.

Text printed is a list of pieces: literals, the file name, numbers, the message (the caller's format
with the caller's arguments).  printf-style calls are contracts on that list; colours are left out."""
import re

import z3

from vcg.engine import *
from vcg.engine import bv
from .lexer import LIMIT
from .tokmodel import TokLayer, FNAME

FMT = 'message format'
STDERR = 'standard error'
MSG = ('msg',)
SMALL = 1 << 29


class Printer:
    def __init__(self):
        self.lens = {}

    # ------------------------------------------------------------ formats
    def expand(self, eng, st, fmt, args):
        """pieces of a format with its arguments; (state, pieces) or (None, None)"""
        if isinstance(fmt, P) and fmt.o == FMT and not fmt.c and not fmt.t:
            return eng.oblige(st, 0, eng.oname('diagnostic', 'message printed without its arguments')), None
        s = cstring(eng, st, fmt)
        if s is None:
            st = eng.oblige(st, 0, eng.oname('diagnostic', 'format is not a constant'))
            return None, None
        args = list(args)
        out = []
        pos = 0
        for m in re.finditer(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])', s):
            out.append(('lit', s[pos:m.start()]))
            pos = m.end()
            if m.group(5) == b'%':
                out.append(('lit', b'%'))
                continue
            if m.group(1) or m.group(2) or m.group(3) or not args:
                if not args:
                    eng.oblige(st, 0, eng.oname('diagnostic', 'format with too few arguments'))
                    return None, None
                raise Unsupported('format %r' % s)
            a = args.pop(0)
            if m.group(5) == b's':
                if not isinstance(a, P):
                    raise Unsupported('%s of a pointer')
                c = cstring(eng, st, a)
                if c is not None and a.o != FNAME:
                    out.append(('lit', c))
                else:
                    out.append(('str', a.o, a.c, a.t))
            elif m.group(5) in b'di':
                out.append(('int', a))
            else:
                raise Unsupported('format %r' % s)
        out.append(('lit', s[pos:]))
        if b'%' in re.sub(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])', b'', s):
            raise Unsupported('format %r' % s)
        return st, norm(out)

    def vexpand(self, eng, st, fmt, ap):
        key = (ap.o, ap.c) if isinstance(ap, P) and not ap.t else None
        live = st.gh.get('va_live', frozenset())
        st = eng.oblige(st, int(key in live), eng.oname('undefined behaviour', 'argument list read twice or not started'))
        if st is None:
            return None, None
        st.gh['va_live'] = live - {key}
        st = eng.oblige(st, int(isinstance(fmt, P) and fmt.o == FMT and not fmt.c and not fmt.t),
                        eng.oname('diagnostic', 'the arguments are printed with the format they came with'))
        return st, [MSG]

    def length(self, eng, st, pieces):
        """number of characters of pieces: the same for the same pieces"""
        for ps, v in st.gh.get('lens', ()):
            if same_pieces(ps, pieces):
                return v
        v = eng.fresh('length', 32)
        st.assume(z3.ULT(v, SMALL))
        st.gh['lens'] = st.gh.get('lens', ()) + ((pieces, v),)
        return v

    # ------------------------------------------------------------ contracts
    def install(self, eng):
        def std(f, st):
            if not (isinstance(f, P) and f.o == STDERR):
                return eng.oblige(st, 0, eng.oname('diagnostic', 'is written to standard error'))
            return st

        def out(st, ps):
            st.event('err', tuple(ps))
            return [(st, eng.fresh('printed', 32))]

        def fprintf(eng, st, a, rt):
            st = std(a[0], st)
            if st is None:
                return []
            st, ps = self.expand(eng, st, a[1], a[2:])
            return [] if st is None else out(st, ps)

        def vfprintf(eng, st, a, rt):
            st = std(a[0], st)
            if st is None:
                return []
            st, ps = self.vexpand(eng, st, a[1], a[2])
            return [] if st is None else out(st, ps)

        def fputc(eng, st, a, rt):
            st = std(a[1], st)
            if not isinstance(a[0], int):
                raise Unsupported('fputc')
            return [] if st is None else out(st, [('lit', bytes([a[0] & 255]))])

        def fputs(eng, st, a, rt):
            st = std(a[1], st)
            if st is None:
                return []
            return out(st, self.text_at(eng, st, a[0]))

        def fwrite(eng, st, a, rt):
            st = std(a[3], st)
            if st is None:
                return []
            if not isinstance(a[1], int) or not isinstance(a[2], int):
                raise Unsupported('fwrite')
            b = cbytes(eng, st, a[0], a[1] * a[2])
            if b is None:
                raise Unsupported('fwrite')
            out(st, [('lit', b)])
            return [(st, a[2])]

        def exit_(eng, st, a, rt):
            eng.terminals.append(('exit', st, a[0]))
            return []

        def sn(eng, st, buf, size, ps):
            n = self.length(eng, st, ps)
            if isinstance(buf, int) and buf == 0:
                st = eng.oblige(st, bv(size, 64) == 0, eng.oname('memory safety', 'text printed to null'))
                return [] if st is None else [(st, n)]
            if not isinstance(buf, P) or not isinstance(st.mem[buf.o].meta, Buf):
                raise Unsupported('text printed to an unknown buffer')
            m = st.mem[buf.o].meta
            off, size = bv(poff(buf), 64), bv(size, 64)
            st = eng.oblige(st, z3.And(z3.ULE(off, m.size), z3.ULE(size, m.size - off)), eng.oname('memory safety', 'text printed past its buffer'))
            if st is None:
                return []
            st = eng.oblige(st, z3.ULT(z3.ZeroExt(32, n), size), eng.oname('diagnostic', 'is not truncated'))
            if st is None:
                return []
            # what stands before off stays; the terminator moves behind the new text
            if eng.check(st, off != 0) == 'unsat':
                new = Buf(m.size, tuple(ps), n)
            else:
                st = eng.oblige(st, off == z3.ZeroExt(32, m.len) if m.len is not None else 0, eng.oname('diagnostic', 'continues where its start ends'))
                if st is None:
                    return []
                new = Buf(m.size, tuple(norm(list(m.pieces) + list(ps))), m.len + n)
            st.wobj(buf.o).meta = new
            return [(st, n)]

        def snprintf(eng, st, a, rt):
            st, ps = self.expand(eng, st, a[2], a[3:])
            return [] if st is None else sn(eng, st, a[0], a[1], ps)

        def vsnprintf(eng, st, a, rt):
            st, ps = self.vexpand(eng, st, a[2], a[3])
            return [] if st is None else sn(eng, st, a[0], a[1], ps)

        def make(eng, st, a, rt):
            n = bv(a[1], 64)
            st = eng.oblige(st, z3.ULT(n, 1 << 40), eng.oname('never aborts', 'size of a message'))
            if st is None:
                return []
            b = st.alloc(None, 'message', kind='plug', meta=Buf(n, None, None))
            return [(s, None) for s in eng.store(st, a[0], ('p',), b)]
        eng.contracts += [(by_name(r'^fprintf$'), fprintf), (by_name(r'^vfprintf$'), vfprintf), (by_name(r'^fputc$|^putc$|^_IO_putc$'), fputc),
                          (by_name(r'^fputs$'), fputs), (by_name(r'^fwrite$'), fwrite), (by_name(r'^(exit|_exit|quick_exit|_Exit)$'), exit_),
                          (by_name(r'^snprintf$'), snprintf), (by_name(r'^vsnprintf$'), vsnprintf),
                          (by_name(r'^fflush$'), lambda e, s, a, r: [(s, 0)]),
                          (by_name(r'std::make_unique(_for_overwrite)?<char ?\[\]>\(unsigned long\)$'), make)]

    def text_at(self, eng, st, p):
        if isinstance(p, P) and p.o in st.mem and isinstance(st.mem[p.o].meta, Buf) and not p.c and not p.t:
            m = st.mem[p.o].meta
            if m.pieces is None:
                eng.oblige(st, 0, eng.oname('memory safety', 'text printed before it was written'))
                return []
            return list(m.pieces)
        s = cstring(eng, st, p)
        if s is None:
            raise Unsupported('text of unknown contents')
        return [('lit', s)]


class Buf:
    """size in bytes; pieces and their length once written"""

    def __init__(self, size, pieces, n):
        self.size, self.pieces, self.len = size, pieces, n

    def load(self, eng, st, p, n, ty):
        raise Unsupported('characters of a message')

    def store(self, eng, st, p, n, v):
        if n == 1 and isinstance(v, int) and v == 0:
            return [st]
        raise Unsupported('characters of a message')


def norm(ps):
    """colours left out, neighbouring literals joined"""
    out = []
    for p in ps:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        else:
            out.append(p)
    return [p for p in ((p[0], re.sub(rb'\x1b\[[0-9;]*m', b'', p[1])) if p[0] == 'lit' else p for p in out) if p != ('lit', b'')]


def same_pieces(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or (x[0] == 'int' and not same(x[1], y[1])) or (x[0] != 'int' and x != y):
            return False
    return True


def setup(env, deadline):
    eng = Engine(env.mod, 20000)
    eng.deadline = deadline
    install_base(eng)
    pr = Printer()
    pr.install(eng)
    st = State()
    tl = TokLayer(env.lay)
    tl.init(eng, st)
    st.mem['g:stderr'] = Obj('bytes', 8, 'stderr')
    st.mem['g:stderr'].cells[0] = (8, P(STDERR, 0))
    st.mem[STDERR] = Obj('bytes', 0, STDERR)
    st.mem[FMT] = Obj('bytes', None, FMT, default=lambda i: eng.fresh('fmt', 8))
    return eng, tl, st


def judge(eng, st, ps, name, line=None, col=None, end=b'\n'):
    """obligations on everything printed; ps: all pieces"""
    ps = norm(ps)
    nm = lambda x: name + ': diagnostic ' + x
    st = eng.oblige(st, int(ps.count(MSG) == 1), nm('holds the message once'))
    if st is None:
        return
    lits = b'\0'.join(p[1] for p in ps if p[0] == 'lit')
    want = len(end) and int(bool(ps) and ps[-1][0] == 'lit' and ps[-1][1] == end)
    if end:
        st = eng.oblige(st, int(want and lits.count(b'\n') == 1), nm('is one line'))
    else:
        st = eng.oblige(st, int(ps[-1] == MSG and lits.count(b'\n') == 0), nm('is one line'))
    if st is None:
        return
    if line is not None:
        shape = len(ps) >= 6 and ps[0] == ('str', FNAME, 0, ()) and ps[1] == ('lit', b':') and ps[2][0] == 'int' \
            and ps[3] == ('lit', b':') and ps[4][0] == 'int' and ps[5][0] == 'lit' and ps[5][1].startswith(b':')
        st = eng.oblige(st, int(bool(shape)), nm('starts with file:line:column'))
        if st is not None:
            eng.oblige(st, z3.And(bv(ps[2][1], 32) == line + 1, bv(ps[4][1], 32) == col + 1), nm('line and column count from 1'))


def printed(st):
    return [p for e in st.ev if e[0] == 'err' for p in e[1]]


def token(eng, tl, st, lay):
    tok = st.alloc(lay['size_token'], 'token')
    line, col = z3.BitVec('line', 32), z3.BitVec('column', 32)
    st.assume(z3.And(z3.ULE(line, LIMIT), z3.ULE(col, (1 << 31) - 4)))
    o = st.wobj(tok.o)
    o.cells[lay['off_token_filename']] = (8, P(FNAME, 0))
    o.cells[lay['off_token_line']] = (4, line)
    o.cells[lay['off_token_column']] = (4, col)
    return tok, line, col


def finish(eng, name, st0, line=None, col=None):
    n = 0
    for kind, z, status in eng.terminals:
        n += 1
        z = eng.oblige(z, bv(status, 32) == 1, name + ': diagnostic ends the program with status 1')
        if z is not None:
            judge(eng, z, printed(z), name, line, col)
    return n


def verify_fatal(env, fname, deadline=None):
    eng, tl, st = setup(env, deadline)
    tok, line, col = token(eng, tl, st, env.lay)
    outs = eng.call(st, Fn(fname), [tok, P(FMT, 0), 1, 2], ('v',))
    for z, _ in outs:
        eng.oblige(z, 0, 'fatal error: diagnostic ends the program')
    if not finish(eng, 'fatal error', st, line, col):
        eng.failures.append(Obligation('fatal error: terminates', 'unknown'))
    return eng


def verify_fatal_plain(env, fname, deadline=None):
    eng, tl, st = setup(env, deadline)
    outs = eng.call(st, Fn(fname), [P(FMT, 0), 1, 2], ('v',))
    for z, _ in outs:
        eng.oblige(z, 0, 'fatal error: diagnostic ends the program')
    if not finish(eng, 'fatal error', st):
        eng.failures.append(Obligation('fatal error: terminates', 'unknown'))
    return eng


def verify_fail(env, fname, deadline=None):
    eng, tl, st = setup(env, deadline)
    tok, line, col = token(eng, tl, st, env.lay)
    ret = st.alloc(8, 'error')
    outs = eng.call(st, Fn(fname), [ret, tok, P(FMT, 0), 1, 2], ('v',))
    for k, z, status in eng.terminals:
        eng.oblige(z, 0, 'fail: returns to its caller')
    for z, _ in outs:
        z = eng.oblige(z, int(not printed(z)), 'fail: diagnostic is not printed yet')
        if z is None:
            continue
        p = eng.load(z, ret, ('p',))[0][1]
        ok = isinstance(p, P) and not p.c and not p.t and isinstance(z.mem[p.o].meta if p.o in z.mem else None, Buf) and z.mem[p.o].meta.pieces is not None
        z = eng.oblige(z, int(ok), 'fail: diagnostic is kept in the error')
        if z is not None:
            judge(eng, z, z.mem[p.o].meta.pieces, 'fail', line, col, b'')
    if not outs:
        eng.failures.append(Obligation('fail: terminates', 'unknown'))
    return eng


def verify_raise(env, fname, deadline=None):
    eng, tl, st = setup(env, deadline)
    b = st.alloc(None, 'message', kind='plug', meta=Buf(z3.BitVec('size', 64), (MSG,), z3.BitVec('len', 32)))
    e = st.alloc(8, 'error')
    st = eng.store(st, e, ('p',), b)[0]
    outs = eng.call(st, Fn(fname), [e], ('v',))
    for z, _ in outs:
        eng.oblige(z, 0, 'raise: diagnostic ends the program')
    if not finish(eng, 'raise', st):
        eng.failures.append(Obligation('raise: terminates', 'unknown'))
    return eng
