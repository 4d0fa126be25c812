"""The program: main and what it calls, for every argument vector, file and I/O failure.

Arguments are handles (a function of the index); files are streams with a position and error bits,
every operation of which may fail.  What the files hold is followed as ranges of the input file and
of the assembled words."""
import z3

from vcg.engine import *
from vcg.engine import bv
from .containers import Containers, put_vec, vec_of, VMeta, b64
from .lexer import LexTheory
from .tokmodel import FMT

W = z3.BitVecSort(64)
ARG = z3.Function('argument', W, W)                       # handle of argument i
ISO = z3.Function('is_minus_o', W, z3.BoolSort())         # of a handle
LEN = z3.Function('argument_length', W, W)
PRE = z3.Function('leading_characters_of_minus_o', W, W)
INF = z3.Function('input_before', W, W)                   # handle of the input named before argument i, 0: none
OUTF = z3.Function('output_before', W, W)
WORD = z3.Function('assembled_word', W, W)
FLEN = z3.BitVec('file_len', 64)
NWORDS = z3.BitVec('words', 64)
FILE = 'input file'
IO = 'io'
BIG = 1 << 40
# cells of the ghost object
POS, BAD, FAIL, OPENED, OBAD, OOPEN, OCLOSED, WRITTEN, ASSEMBLED = 0, 8, 9, 10, 16, 17, 18, 19, 20
VB = {'in': 256, 'out': 248}


class ArgvMeta:
    def load(self, eng, st, p, n, ty):
        if n != 8 or p.c % 8 or any(k % 8 for k, _ in p.t):
            raise Unsupported('read of the argument vector')
        i = lin_bv(p.c // 8, tuple((k // 8, t) for k, t in p.t))
        i = b64(i)
        argc = z3.SignExt(32, z3.BitVec('argc', 32))
        st = eng.oblige(st, z3.And(i >= 0, i < argc), eng.oname('memory safety', 'read outside the arguments'))
        if st is None:
            return []
        i = z3.simplify(i)
        st.assume(ARG(i) != 0, True)
        return [(st, ARG(i))]


class FileMeta:
    """text read from the file: only lengths matter"""

    def load(self, eng, st, p, n, ty):
        raise Unsupported('characters of the input')


def steps(i):
    """what the arguments before i+1 and i+2 say, when the argument at i is no value of -o"""
    a = ARG(i)
    y, z = z3.simplify(i + 1), z3.simplify(i + 2)
    return [z3.Implies(ISO(a), z3.And(INF(z) == INF(i), OUTF(z) == ARG(y))),
            z3.Implies(z3.Not(ISO(a)), z3.And(INF(y) == a, OUTF(y) == OUTF(i))), a != 0]


def bad_at(i, argc):
    a = ARG(i)
    return z3.And(i < argc, z3.Or(z3.And(ISO(a), z3.Or(OUTF(i) != 0, i + 1 >= argc)), z3.And(z3.Not(ISO(a)), INF(i) != 0)))


class CmdTheory(LexTheory):
    """loops over arguments, and over blocks of the input"""

    def __init__(self, argc):
        super().__init__()
        self.argc = argc

    def prefer_abstract(self, fn, header):
        return ' std::' not in ' ' + short(fn.demangled)

    def pos(self, eng, st, key):
        return None

    def at_head(self, eng, S, hv):
        idx = []
        for key in hv:
            v = self.cell(eng, S, key)
            if key[2] in (4, 8) and is_bv(v):
                i = z3.SignExt(32, v) if key[2] == 4 else v
                idx.append(i)
        S.gh['heads'] = S.gh.get('heads', ()) + tuple(idx)

    def after_invariants(self, eng, S0, S, M, hv):
        for key in hv:
            v = self.cell(eng, S, key)
            if key[2] == 4 and is_bv(v):
                for a in steps(z3.simplify(z3.SignExt(32, v))):
                    S.assume(a, True)

    def candidates(self, eng, S0, S, M, hv):
        out = []
        argc = self.argc
        cells = list(hv)
        for key in cells:
            oid, off, n = key
            c0 = self.cell(eng, S0, key)
            if n == 4:
                out.append(('index in range %s' % (key,), lambda st, key=key: self.with_val(eng, st, key, None, lambda v, q: z3.And(v >= 1, z3.Or(v <= z3.Extract(31, 0, argc), v == 1)))))
                for k2 in cells:
                    if k2[2] == 8:
                        for nm, f in (('input', INF), ('output', OUTF)):
                            out.append(('%s so far %s' % (nm, (key, k2)), lambda st, key=key, k2=k2, f=f: self.two(eng, st, key, k2, lambda i, v: v == f(z3.simplify(z3.SignExt(32, i))))))
            if n == 8:
                out.append(('not more than the file %s' % (key,), lambda st, key=key: self.with_val(eng, st, key, None, lambda v, q: z3.ULE(v, FLEN))))
                for k2 in cells:
                    if k2[2] == 8 and k2 != key and k2 > key if type(k2[0]) is type(key[0]) else k2[2] == 8:
                        out.append(('equal %s' % ((key, k2),), lambda st, key=key, k2=k2: self.two(eng, st, key, k2, lambda a, b: a == b)))
            if n == 1:
                for w in (0, 1):
                    out.append(('flag %d %s' % (w, key), lambda st, key=key, w=w: self.with_val(eng, st, key, None, lambda v, q: v == w)))
            if key == (IO, POS, 8):
                out.append(('a read that fails has reached the end', lambda st: z3.Or(self.io(eng, st, FAIL) == 0, self.io(eng, st, BAD) == 1, self.io(eng, st, POS, 8) == FLEN)))
            if isinstance(c0, int) or is_bv(c0):
                out.append(('unchanged %s' % (key,), lambda st, key=key, c0=c0, n=n: self.with_val(eng, st, key, None, lambda v, q: v == bv(c0, 8 * n))))
        return out

    def io(self, eng, st, off, n=1):
        return bv(eng.load(st, P(IO, off), ('i', 8 * n))[0][1], 8 * n)

    def two(self, eng, st, k1, k2, f):
        return self.with_val(eng, st, k1, None, lambda v, _: self.with_val(eng, st, k2, None, lambda w, __: f(v, w)))

    def progress(self, eng, S, b, hv, fn):
        ms = []
        for key in hv:
            v, w = self.cell(eng, S, key), self.cell(eng, b, key)
            if not is_bv(v) or w is None:
                continue
            if key[2] == 4:
                ms.append(z3.And(bv(w, 32) > v, z3.SignExt(32, v) < self.argc))
                eng.oblige(b.clone(), z3.Not(bad_at(z3.simplify(z3.SignExt(32, v)), self.argc)), 'command line: a missing name or a second file is refused')
            if key[0] == IO and key[1] == POS:
                ms.append(z3.And(z3.UGT(bv(w, 64), v), z3.ULE(bv(w, 64), FLEN)))
        if not ms:
            raise Unsupported('no measure for a loop in ' + fn)
        eng.oblige(b.clone(), z3.Or(ms), 'terminates: every iteration moves on (%s)' % fn)


IOS = r'^(?:.* )?std::basic_ios<char, std::char_traits<char> ?>::'


class Streams:
    def __init__(self, argc):
        self.argc = argc
        self.nm = lambda x: 'command line: ' + x

    def get(self, eng, st, off, n=1):
        return bv(eng.load(st, P(IO, off), ('i', 8 * n))[0][1], 8 * n)

    def put(self, eng, st, off, v, n=1):
        return eng.store(st, P(IO, off), ('i', 8 * n), v)[0]

    def kind(self, st, p):
        if not isinstance(p, P) or p.t or p.o not in st.mem or not isinstance(st.mem[p.o].meta, tuple) or st.mem[p.o].meta[0] != 'stream':
            raise Unsupported('unknown stream')
        return st.mem[p.o].meta[1]

    def new(self, eng, st, p, kind):
        vt = st.alloc(64, 'virtual table')
        eng.put(st, vt.o, 0, 8, VB[kind])
        eng.put(st, p.o, p.c, 8, P(vt.o, 24))
        if kind == 'in':
            eng.put(st, p.o, p.c + 8, 8, 0)
        if p.c:
            raise Unsupported('stream inside an object')
        st.wobj(p.o).meta = ('stream', kind)
        return st

    def b1(self, c):
        return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))

    def install(self, eng):
        nm = self.nm

        def ifs(eng, st, a, rt):
            st = eng.oblige(st, z3.And(bv(a[1], 64) == st.gh['input'](st) if 'input' in st.gh else bv(a[1], 64) != 0), nm('reads the input named'))
            if st is None:
                return []
            st.event('in', bv(a[1], 64))
            st = self.new(eng, st, a[0], 'in')
            ok = eng.freshb('can_open')
            st = self.put(eng, st, OPENED, self.b1(ok))
            st = self.put(eng, st, FAIL, self.b1(z3.Not(ok)))
            return [(st, None)]

        def ofs(eng, st, a, rt):
            if not isinstance(a[2], int):
                raise Unsupported('open mode')
            st = eng.oblige(st, int(a[2] & (1 | 8) == 0), nm('an old output is replaced'))
            if st is None:
                return []
            st = eng.oblige(st, self.get(eng, st, ASSEMBLED) == 1, nm('output is opened only after assembling'))
            if st is None:
                return []
            st.event('out', bv(a[1], 64))
            st = self.new(eng, st, a[0], 'out')
            ok = eng.freshb('can_create')
            st = self.put(eng, st, OOPEN, self.b1(ok))
            st = self.put(eng, st, OBAD, self.b1(z3.Not(ok)))
            return [(st, None)]

        def is_open(eng, st, a, rt):
            k = self.kind(st, a[0])
            return [(st, fold(self.get(eng, st, OPENED if k == 'in' else OOPEN) == 1))]

        def failed(st, p):
            k = self.kind(st, p)
            if p.c != VB[k]:
                raise Unsupported('state of a stream')
            return self.get(eng, st, FAIL if k == 'in' else OBAD) == 1

        def bad(eng, st, a, rt):
            k = self.kind(st, a[0])
            return [(st, fold(self.get(eng, st, BAD if k == 'in' else OBAD) == 1))]

        def read(eng, st, a, rt):
            k = self.kind(st, a[0])
            buf, n = a[1], bv(a[2], 64)
            if k != 'in' or not isinstance(buf, P) or buf.t or not isinstance(a[2], int):
                raise Unsupported('read')
            st = eng.oblige(st, int(a[2] >= 0 and buf.c + a[2] <= st.mem[buf.o].size), eng.oname('memory safety', 'read past the buffer'))
            if st is None:
                return []
            pos, bd = self.get(eng, st, POS, 8), self.get(eng, st, BAD)
            good = self.get(eng, st, FAIL) == 0
            err = eng.freshb('read_error')
            left = FLEN - pos
            g = eng.fresh('count', 64)
            st.assume(z3.ULE(g, z3.If(z3.ULT(left, n), left, n)))
            st.assume(z3.Implies(z3.And(good, z3.Not(err)), g == z3.If(z3.ULT(left, n), left, n)))
            st.assume(z3.Implies(z3.Not(good), g == 0))
            o = st.wobj(buf.o)
            eng.clear(o, buf.c, a[2])
            st.gh['buffer'] = (buf.o, buf.c, pos, g)
            eng.put(st, a[0].o, 8, 8, g)
            st = self.put(eng, st, POS, pos + g, 8)
            st = self.put(eng, st, BAD, self.b1(z3.Or(bd == 1, z3.And(good, err))))
            st = self.put(eng, st, FAIL, self.b1(z3.Or(z3.Not(good), err, z3.ULT(g, n))))
            return [(st, a[0])]

        def append(eng, st, a, rt):
            st, n = eng.load(st, padd(a[0], 8), ('i', 64))[0]
            b = st.gh.get('buffer')
            if b is None or not isinstance(a[1], P) or (a[1].o, a[1].c) != b[:2] or a[1].t:
                raise Unsupported('text added to a string')
            st = eng.oblige(st, z3.And(bv(n, 64) == b[2], bv(a[2], 64) == b[3]), nm('the text is the file, in order'))
            if st is None:
                return []
            eng.put(st, a[0].o, a[0].c, 8, P(FILE, 0))
            eng.put(st, a[0].o, a[0].c + 8, 8, fold(bv(n, 64) + bv(a[2], 64)))
            st.gh['buffer'] = None
            return [(st, a[0])]

        def empty(eng, st, a, rt):
            eng.put(st, a[0].o, a[0].c, 8, P(FILE, 0))
            eng.put(st, a[0].o, a[0].c + 8, 8, 0)
            return [(st, None)]

        def write(eng, st, a, rt):
            if self.kind(st, a[0]) != 'out':
                raise Unsupported('write')
            v = st.gh.get('binary')
            p = a[1]
            ok = v is not None and isinstance(p, P) and p.o == v
            st = eng.oblige(st, z3.And(bv(poff(p), 64) == 0, bv(a[2], 64) == NWORDS * 8) if ok else 0, nm('every byte of the assembled words is written'))
            if st is None:
                return []
            st = eng.oblige(st, self.get(eng, st, WRITTEN) == 0, nm('the words are written once'))
            if st is None:
                return []
            f = eng.freshb('write_error')
            st = self.put(eng, st, OBAD, self.b1(z3.Or(self.get(eng, st, OBAD) == 1, f)))
            st = self.put(eng, st, WRITTEN, 1)
            return [(st, a[0])]

        def close(eng, st, a, rt):
            if self.kind(st, a[0]) == 'out':
                f = eng.freshb('close_error')
                st = self.put(eng, st, OBAD, self.b1(z3.Or(self.get(eng, st, OBAD) == 1, f)))
                st = self.put(eng, st, OCLOSED, 1)
            return [(st, None)]

        def flush(eng, st, a, rt):
            # everything is handed over, as by close
            r = close(eng, st, a, rt)
            return [(r[0][0], a[0])]

        def strcmp(eng, st, a, rt):
            h, s = a
            if isinstance(h, P):
                h, s = s, h
            if not is_bv(h) or cstring(eng, st, s) != b'-o':
                raise Unsupported('comparison of arguments')
            v = eng.fresh('order', 32)
            st.assume((v == 0) == ISO(h), True)
            return [(st, v)]

        def chars(st, h):
            st.assume(z3.And(z3.ULT(LEN(h), BIG), z3.ULE(PRE(h), 2), z3.ULE(PRE(h), LEN(h)), ISO(h) == z3.And(LEN(h) == 2, PRE(h) == 2)), True)

        def length(eng, st, a, rt):
            if not is_bv(a[0]):
                return NotImplemented
            chars(st, a[0])
            return [(st, LEN(a[0]))]

        def compare(eng, st, a, rt):
            h, s, n = a
            if isinstance(h, P):
                h, s = s, h
            if not is_bv(h) or not isinstance(s, P):
                return NotImplemented
            if cstring(eng, st, s) != b'-o':
                raise Unsupported('comparison of arguments')
            chars(st, h)
            n = bv(n, 64)
            if eng.check(st, z3.UGT(n, 2)) != 'unsat':
                raise Unsupported('comparison of arguments')
            st = eng.oblige(st, z3.ULE(n, LEN(h)), eng.oname('memory safety', 'comparison past an argument'))
            if st is None:
                return []
            v = eng.fresh('order', 32)
            st.assume((v == 0) == z3.UGE(PRE(h), n), True)
            return [(st, v)]

        def strncmp(eng, st, a, rt):
            h, s, n = a
            if isinstance(h, P):
                h, s = s, h
            if not is_bv(h) or cstring(eng, st, s) != b'-o' or not isinstance(n, int):
                raise Unsupported('comparison of arguments')
            chars(st, h)
            v = eng.fresh('order', 32)
            st.assume((v == 0) == (z3.UGE(PRE(h), n) if n <= 2 else ISO(h)), True)
            return [(st, v)]

        def cstr(eng, st, a, rt):
            if is_bv(a[1]):
                chars(st, a[1])
                eng.put(st, a[0].o, a[0].c, 8, a[1])
                eng.put(st, a[0].o, a[0].c + 8, 8, LEN(a[1]))
                return [(st, None)]
            if not isinstance(a[1], P) or a[1].o != FILE or a[1].c or a[1].t:
                return NotImplemented
            # the text of the file is NUL-free
            eng.put(st, a[0].o, a[0].c, 8, P(FILE, 0))
            eng.put(st, a[0].o, a[0].c + 8, 8, st.gh['text'])
            return [(st, None)]

        def c_str(eng, st, a, rt):
            st, p = eng.load(st, a[0], ('p',))[0]
            st, n = eng.load(st, padd(a[0], 8), ('i', 64))[0]
            if is_bv(p):
                return [(st, p)]
            if not isinstance(p, P) or p.o != FILE:
                raise Unsupported('characters of a string')
            st.gh['text'] = n
            return [(st, p)]

        def assemble(eng, st, a, rt):
            dst, s, name = a
            st, p = eng.load(st, s, ('p',))[0]
            st, n = eng.load(st, padd(s, 8), ('i', 64))[0]
            ok = isinstance(p, P) and p.o == FILE and not p.c and not p.t
            ins = [e[1] for e in st.ev if e[0] == 'in']
            st = eng.oblige(st, z3.And(bv(n, 64) == FLEN, self.get(eng, st, BAD) == 0) if ok else 0, nm('the whole input is assembled'))
            if st is None:
                return []
            st = eng.oblige(st, bv(name, 64) == ins[-1] if ins and is_bv(name) else 0, nm('diagnostics carry the file name'))
            if st is None:
                return []
            q = put_vec(eng, st, dst, 'assembled words', 8, NWORDS, lambda i: WORD(i))
            st.gh['binary'] = q.o
            st = self.put(eng, st, ASSEMBLED, 1)
            return [(st, None)]

        def fatal(eng, st, a, rt):
            fs = cstrings(eng, st, a[0])
            if fs is None:
                raise Unsupported('format of a diagnostic')
            for f in fs:
                convs = [m.group(4) for m in FMT.finditer(f.decode('latin-1')) if m.group(4) != '%']
                st = eng.oblige(st, int(len(convs) <= len(a) - 1 and all(c != 'n' for c in convs)), eng.oname('memory safety', 'arguments of a diagnostic match its format'))
                if st is None:
                    return []
            eng.terminals.append(('fatal', st, None))
            return []
        st = r'^(?:.* )?std::basic_(i|o)fstream<char, std::char_traits<char> ?>::'
        s = r'^(?:.* )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
        eng.contracts += [
            (by_name(r'^std::basic_ifstream<char, std::char_traits<char> ?>::basic_ifstream\(char const\*, std::_Ios_Openmode\)$'), ifs),
            (by_name(r'^std::basic_ofstream<char, std::char_traits<char> ?>::basic_ofstream\(char const\*, std::_Ios_Openmode\)$'), ofs),
            (by_name(st + r'is_open\(\)'), is_open), (by_name(st + r'close\(\)$'), close), (by_name(r'^std::ostream::flush\(\)$'), flush), (by_name(st + r'~basic_(i|o)fstream\(\)$'), c_nop),
            (by_name(IOS + r'(fail\(\) const|operator!\(\) const)$'), lambda e, z, a, r: [(z, fold(failed(z, a[0])))]),
            (by_name(IOS + r'(operator bool|good)\(\) const$'), lambda e, z, a, r: [(z, fold(z3.Not(failed(z, a[0]))))]),
            (by_name(IOS + r'bad\(\) const$'), bad),
            (by_name(r'^std::istream::read\(char\*, long\)$'), read), (by_name(r'^std::ostream::write\(char const\*, long\)$'), write),
            (by_name(r'^std::istream::gcount\(\) const$'), lambda e, z, a, r: [(z, e.load(z, padd(a[0], 8), ('i', 64))[0][1])]),
            (by_name(r'^strcmp$'), strcmp), (by_name(r'^strncmp$'), strncmp), (by_name(r'^(strlen|std::char_traits<char>::length\(char const\*\))$'), length),
            (by_name(r'^(memcmp|bcmp|std::char_traits<char>::compare\(char const\*, char const\*, unsigned long\))$'), compare),
            (by_name(s + r'append\(char const\*, unsigned long\)$'), append), (by_name(s + r'basic_string\(\)$'), empty),
            (by_name(s + r'basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator<char> const&\)$'), cstr),
            (by_name(s + r'(c_str|data)\(\) const$'), c_str),
            (by_name(r'^nxas::assemble\('), assemble), (by_name(r'^fatal_error\(char const\*, \.\.\.\)$'), fatal),
        ]


def small(argc, n):
    """(accepted, input, output) for at most n arguments"""
    zero = z3.BitVecVal(0, 64)

    def go(i, a, b):
        done = (z3.And(a != 0, b != 0), a, b)
        if i >= n:
            return done
        v = ARG(z3.BitVecVal(i, 64))
        o = go(i + 2, a, ARG(z3.BitVecVal(i + 1, 64)))
        p = go(i + 1, v, b)
        okk = (z3.And(b == 0, i + 1 < argc, o[0]), o[1], o[2]), (z3.And(a == 0, p[0]), p[1], p[2])
        e = i >= argc
        return tuple(z3.If(e, done[k], z3.If(ISO(v), okk[0][k], okk[1][k])) for k in range(3))
    return go(1, zero, zero)


def verify_main(env, fname, unroll=None, deadline=None):
    """unroll: at most that many arguments and two blocks of input"""
    eng = Engine(env.mod, 20000)
    eng.deadline = deadline
    argc32 = z3.BitVec('argc', 32)
    argc = z3.SignExt(32, argc32)
    eng.theory = CmdTheory(argc)
    eng.sym_iter_limit = 1
    eng.force_unroll = unroll and unroll + 2
    install_base(eng)
    s = Streams(argc)
    s.install(eng)
    Containers(env.lay).install(eng)
    st = State()
    st.assume(z3.And(argc32 >= 1, argc32 < 1 << 30, z3.ULT(FLEN, BIG), z3.ULT(NWORDS, BIG)))
    argv = st.alloc(None, 'arguments', kind='plug', meta=ArgvMeta())
    st.mem[FILE] = Obj('plug', None, 'text of the input', meta=FileMeta())
    st.mem[IO] = Obj('bytes', 32, 'io')
    eng.put(st, IO, POS, 8, 0)
    for c in (BAD, FAIL, OPENED, OBAD, OOPEN, OCLOSED, WRITTEN, ASSEMBLED):
        eng.put(st, IO, c, 1, 0)
    one = z3.BitVecVal(1, 64)
    st.assume(z3.And(INF(one) == 0, OUTF(one) == 0), True)
    if unroll is None:
        for a in steps(one):
            st.assume(z3.Implies(argc > 1, a), True)
    else:
        st.assume(z3.And(argc32 <= unroll, z3.ULE(FLEN, 8000)))
    outs = eng.call(st, Fn(fname), [argc32, argv], ('i', 32))
    nm = s.nm
    end = lambda z: z.gh.get('heads', ())
    for kind, z, info in eng.terminals:
        io = z3.Or(z3.And(s.get(eng, z, OPENED) == 0, z3.BoolVal(any(e[0] == 'in' for e in z.ev))), s.get(eng, z, BAD) == 1, s.get(eng, z, OBAD) == 1)
        if unroll is not None:
            eng.oblige(z, z3.Or(io, z3.Not(small(argc, unroll)[0])), nm('refuses only bad command lines and failed files'))
            continue
        cand = [z3.Or(bad_at(i, argc), z3.And(i >= argc, z3.Or(INF(i) == 0, OUTF(i) == 0))) for i in list(end(z)) + [one]]
        eng.oblige(z, z3.Or([io] + cand), nm('refuses only bad command lines and failed files'))
    for z, r in outs:
        hs = list(end(z)) + [one]
        if unroll is None:
            z = eng.oblige(z, z3.Or([z3.And(i >= argc, i <= argc) for i in hs]), nm('every argument is looked at'))
        else:
            z = eng.oblige(z, small(argc, unroll)[0], nm('a missing name or a second file is refused'))
        if z is None:
            continue
        ins = [e[1] for e in z.ev if e[0] == 'in']
        ous = [e[1] for e in z.ev if e[0] == 'out']
        z = eng.oblige(z, int(len(ins) == 1 and len(ous) == 1), nm('one input is read and one output written'))
        if z is None:
            continue
        ex = z3.Or([z3.And(i == argc, INF(i) == ins[0], OUTF(i) == ous[0], ins[0] != 0, ous[0] != 0) for i in hs])
        if unroll is not None:
            _, a, b = small(argc, unroll)
            ex = z3.And(a == ins[0], b == ous[0])
        for what, c in (('the input and the output are the ones named', ex), ('status 0', bv(r, 32) == 0),
                        ('status 0 only if everything was written', z3.And(s.get(eng, z, WRITTEN) == 1, s.get(eng, z, OBAD) == 0, s.get(eng, z, OOPEN) == 1, s.get(eng, z, OCLOSED) == 1)),
                        ('status 0 only if the input was read', z3.And(s.get(eng, z, OPENED) == 1, s.get(eng, z, BAD) == 0, s.get(eng, z, POS, 8) == FLEN))):
            z = eng.oblige(z, c, nm(what))
            if z is None:
                break
    if not outs:
        eng.failures.append(Obligation(nm('terminates'), 'unknown'))
    return eng
