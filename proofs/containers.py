"""Assumed contracts of the library containers: std::vector and std::string.

A vector keeps libstdc++'s three pointers, so accessors run as compiled; its elements live in an
abstract object whose contents are a function of the index.  Mutators are contracts on that
function.  A string keeps its data pointer and length."""
import re

import z3

from vcg.engine import *
from vcg.engine import bv

BIG = 1 << 48


def b64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


class VMeta:
    """elem(i): the es bytes of element i; n: number of elements"""

    def __init__(self, es, n, elem):
        self.es, self.n, self.elem = es, n, elem

    def index(self, eng, st, p):
        """(index, offset in the element)"""
        es = self.es
        if any(k % es for k, _ in p.t):
            raise Unsupported('address inside a vector that is no element')
        i = lin_bv(p.c // es, tuple((k // es, t) for k, t in p.t))
        if not isinstance(i, int) and eng.check(st, z3.UGE(i, BIG)) != 'unsat':
            raise Unsupported('vector index without a bound')
        return b64(i), p.c % es

    def load(self, eng, st, p, n, ty):
        i, o = self.index(eng, st, p)
        if o + n > self.es:
            raise Unsupported('read across elements')
        v = fold(z3.Extract(8 * (o + n) - 1, 8 * o, self.elem(i)))
        return [(st, eng.coerce(v, ty))]

    def store(self, eng, st, p, n, v):
        i, o = self.index(eng, st, p)
        if o + n > self.es or isinstance(v, (P, Fn, tuple)):
            raise Unsupported('store across elements')
        v = bv(v, 8 * n)
        if v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        old, es = self.elem, self.es

        def elem(j):
            e = old(j)
            parts = []
            if o + n < es:
                parts.append(z3.Extract(8 * es - 1, 8 * (o + n), e))
            parts.append(v)
            if o:
                parts.append(z3.Extract(8 * o - 1, 0, e))
            return pick(j, i, z3.Concat(parts) if len(parts) > 1 else v, e)
        set_vec(eng, st, p.o, VMeta(es, self.n, elem))
        return [st]


def pick(j, i, a, b):
    c = z3.simplify(j == i)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def less(j, n, a, b):
    """a() if j < n else b()"""
    c = z3.simplify(z3.ULT(j, n))
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    return z3.If(c, a(), b())


def set_vec(eng, st, oid, meta):
    o = st.wobj(oid)
    o.meta = meta
    o.size = fold(b64(meta.n) * meta.es) if not isinstance(meta.n, int) else meta.n * meta.es


def new_elems(st, name, es, n, elem):
    p = st.alloc(n * es if isinstance(n, int) else n * z3.BitVecVal(es, 64), name, kind='plug', meta=VMeta(es, n, elem))
    return p


def put_vec(eng, st, v, name, es, n, elem):
    p = new_elems(st, name, es, n, elem)
    eng.put(st, v.o, v.c, 8, p)
    end = padd(p, n * es if isinstance(n, int) else n * z3.BitVecVal(es, 64))
    eng.put(st, v.o, v.c + 8, 8, end)
    eng.put(st, v.o, v.c + 16, 8, end)
    return p


def vec_of(eng, st, v):
    """(object id, VMeta) of the vector at v"""
    if not isinstance(v, P) or v.t:
        raise Unsupported('vector at a symbolic place')
    c = st.mem[v.o].cells.get(v.c)
    p = c[1] if c else None
    if not isinstance(p, P) or p.o not in st.mem or not isinstance(st.mem[p.o].meta, VMeta) or p.t or p.c:
        raise Unsupported('not a vector of the model')
    return p.o, st.mem[p.o].meta


def resize_vec(eng, st, v, n, elem):
    oid, m = vec_of(eng, st, v)
    n = fold(n) if is_bv(n) else n
    if not isinstance(n, int):
        st = eng.oblige(st, z3.ULT(n, BIG), eng.oname('never aborts', 'vector length'))
        if st is None:
            return None
    set_vec(eng, st, oid, VMeta(m.es, n, elem))
    end = padd(P(oid, 0), n * m.es if isinstance(n, int) else n * z3.BitVecVal(m.es, 64))
    eng.put(st, v.o, v.c + 8, 8, end)
    return st


def src_range(eng, st, first, last):
    """(count, elem) of the words [first, last)"""
    if not isinstance(first, P) or not isinstance(last, P) or first.o != last.o:
        raise Unsupported('range of unknown words')
    d = pdiff(last, first)
    o = st.mem[first.o]
    if isinstance(o.meta, VMeta):
        es = o.meta.es
        i0, r = o.meta.index(eng, st, first)
        i1, _ = o.meta.index(eng, st, last)
        if r:
            raise Unsupported('range that does not start at an element')
        ok = z3.And(z3.ULE(i0, i1), z3.ULE(i1, o.meta.n))
        st = eng.oblige(st, ok, eng.oname('memory safety', 'range inside its vector'))
        if st is None:
            return None
        m = fold(i1 - i0)
        old = o.meta.elem
        return st, m, (lambda j: old(j if z3.is_bv_value(i0) and i0.as_long() == 0 else z3.simplify(i0 + j)))
    if not isinstance(d, int) or first.t or o.kind != 'bytes':
        raise Unsupported('range of unknown length')
    if s64(d) < 0:
        eng.oblige(st, 0, eng.oname('memory safety', 'range'))
        return None
    ws = []
    for k in range(0, d, 8):
        r = eng.load(st, padd(first, k), ('i', 64))
        if len(r) != 1:
            raise Unsupported('range')
        st, w = r[0]
        ws.append(bv(w, 64) if isinstance(w, int) or is_bv(w) else None)
    if None in ws:
        raise Unsupported('pointers in a range')

    def elem(j):
        e = z3.BitVecVal(0, 64)
        for k, w in reversed(list(enumerate(ws))):
            e = pick(j, z3.BitVecVal(k, 64), w, e)
        return e
    return st, len(ws), elem


# ---------------------------------------------------------------- contracts
def elem_size(eng, ty):
    return {'unsigned long': 8, 'opcode': 16}.get(ty)


class Containers:
    def __init__(self, lay):
        self.lay = lay

    def install(self, eng):
        for ty, es in (('unsigned long', 8), ('opcode', self.lay['size_opcode'])):
            t = r'^(?:.* )?std::vector<%s, std::allocator<%s> ?>::' % (ty, ty)
            eng.contracts += [
                (by_name(t + r'vector\(\)$'), self.ctor(es)),
                (by_name(t + r'vector\(unsigned long, std::allocator<%s> const&\)$' % ty), self.ctor_n(es, ty)),
                (by_name(t + r'vector\(unsigned long, %s const&, std::allocator<%s> const&\)$' % (ty, ty)), self.ctor_fill(es)),
                (by_name(t + r'~vector\(\)$'), c_nop),
                (by_name(t + r'(reserve\(unsigned long\)|shrink_to_fit\(\))$'), c_nop),
            ]
            if es == 8:
                eng.contracts += [
                    (by_name(t + r'(push_back\(unsigned long( const&|&&)\)|emplace_back<[^()]*>\([^()]*\))$'), self.push),
                    (by_name(t + r'insert<.*>\(__gnu_cxx::__normal_iterator<'), self.insert),
                    (by_name(t + r'resize\(unsigned long(, unsigned long const&)?\)$'), self.resize),
                    (by_name(t + r'clear\(\)$'), self.clear),
                ]
        s = r'^(?:.* )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
        eng.contracts += [
            (by_name(s + r'~basic_string\(\)$'), c_nop),
            (by_name(r'^std::__cxx11::basic_string<.*> std::optional<std::__cxx11::basic_string<.*> ?>::value_or<'), self.value_or),
            (by_name(s + r'basic_string<std::basic_string_view<char, std::char_traits<char> ?>, void>\('), self.str_view),
            (by_name(s + r'basic_string\(\)$'), self.str_empty),
            (by_name(s + r'append\(char const\*, unsigned long\)$'), self.str_append),
            (by_name(s + r'basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator<char> const&\)$'), self.str_cstr),
            (by_name(s + r'basic_string(<std::allocator<char> ?>)?\(char const\*, unsigned long, std::allocator<char> const&\)$'), self.str_ptr),
            (by_name(s + r'basic_string<char(?: const)?\*, void>\(char(?: const)?\*, char(?: const)?\*, std::allocator<char> const&\)$'), self.str_range),
            (by_name(s + r'assign\(char const\*, unsigned long\)$'), self.str_assign),
            (by_name(s + r'(assign|append)<char const\*, void>\(char const\*, char const\*\)$'), self.str_range_assign),
        ]

    def ctor(self, es):
        def h(eng, st, args, rt):
            put_vec(eng, st, args[0], 'vector', es, 0, lambda i: z3.BitVecVal(0, 8 * es))
            return [(st, None)]
        return h

    def ctor_n(self, es, ty):
        def h(eng, st, args, rt):
            # value-initialised elements; what that is for a class is read off its constructor
            w = z3.BitVecVal(0, 8 * es)
            n = args[1]
            if ty == 'opcode':
                t = st.alloc(es, 'element', default='z')
                f = [x for x, g in eng.mod.functions.items() if g.demangled == 'opcode::opcode()']
                if f:
                    r = eng.call(st, Fn(f[0]), [t], ('v',))
                    if len(r) != 1:
                        raise Unsupported('constructor of an element')
                    st = r[0][0]
                w = eng.load_raw(st, st.mem[t.o], 0, es)
                w = bv(w, 8 * es)
                del st.mem[t.o]
            put_vec(eng, st, args[0], 'vector', es, n, lambda i: w)
            return [(st, None)]
        return h

    def ctor_fill(self, es):
        def h(eng, st, args, rt):
            if es != 8:
                return NotImplemented
            r = eng.load(st, args[2], ('i', 64))
            st, w = r[0]
            w = bv(w, 64)
            put_vec(eng, st, args[0], 'vector', es, args[1], lambda i: w)
            return [(st, None)]
        return h

    def push(self, eng, st, args, rt):
        r = eng.load(st, args[1], ('i', 64))
        if len(r) != 1:
            raise Unsupported('element pushed')
        st, w = r[0]
        w = bv(w, 64)
        oid, m = vec_of(eng, st, args[0])
        n, old = m.n, m.elem
        st = resize_vec(eng, st, args[0], n + 1, lambda j: pick(j, b64(n), w, old(j)))
        if st is None:
            return []
        return [(st, padd(P(oid, 0), n * 8 if isinstance(n, int) else n * z3.BitVecVal(8, 64)))]

    def insert(self, eng, st, args, rt):
        v, pos, first, last = args[:4]
        oid, m = vec_of(eng, st, v)
        if not isinstance(pos, P) or pos.o != oid:
            raise Unsupported('insertion at a foreign iterator')
        k, r = m.index(eng, st, pos)
        r = src_range(eng, st, first, last)
        if r is None:
            return []
        st, cnt, src = r
        n, old = m.n, m.elem
        st = eng.oblige(st, z3.ULE(k, n), eng.oname('memory safety', 'insertion inside the vector'))
        if st is None:
            return []
        if same(fold(b64(n) - k), 0):
            new = lambda j: less(j, b64(n), lambda: old(j), lambda: src(z3.simplify(j - b64(n))))
        else:
            new = lambda j: less(j, k, lambda: old(j), lambda: less(j, z3.simplify(k + cnt), lambda: src(z3.simplify(j - k)), lambda: old(z3.simplify(j - cnt))))
        st = resize_vec(eng, st, v, n + cnt if isinstance(n, int) and isinstance(cnt, int) else b64(n) + b64(cnt), new)
        if st is None:
            return []
        return [(st, padd(P(oid, 0), k * z3.BitVecVal(8, 64)))]

    def resize(self, eng, st, args, rt):
        v, n2 = args[0], args[1]
        fill = z3.BitVecVal(0, 64)
        if len(args) > 2:
            st, w = eng.load(st, args[2], ('i', 64))[0]
            fill = bv(w, 64)
        oid, m = vec_of(eng, st, v)
        n, old = m.n, m.elem
        st = resize_vec(eng, st, v, n2, lambda j: less(j, b64(n), lambda: old(j), lambda: fill))
        return [] if st is None else [(st, None)]

    def clear(self, eng, st, args, rt):
        st = resize_vec(eng, st, args[0], 0, lambda j: z3.BitVecVal(0, 64))
        return [(st, None)]

    # ------------------------------------------------------------ strings: data pointer, length
    def put_str(self, eng, st, s, data, n):
        eng.put(st, s.o, s.c, 8, data)
        eng.put(st, s.o, s.c + 8, 8, n)

    def value_or(self, eng, st, args, rt):
        dst, opt, alt = args
        r = eng.load(st, padd(opt, 32), ('i', 8))
        st, on = r[0]
        a, b = eng.split(st, boolof(bv(on, 8) != 0 if is_bv(on) else int(on != 0)))
        out = []
        if a is not None:
            raise Unsupported('string option that is set')
        if b is not None:
            s = cstring(eng, b, alt)
            if s is None:
                raise Unsupported('default of a string option')
            self.put_str(eng, b, dst, alt, len(s))
            out.append((b, None))
        return out

    def str_view(self, eng, st, args, rt):
        st, n = eng.load(st, args[1], ('i', 64))[0]
        st, p = eng.load(st, padd(args[1], 8), ('p',))[0]
        self.put_str(eng, st, args[0], p, n)
        return [(st, None)]

    def str_empty(self, eng, st, args, rt):
        p = st.alloc(1, 'empty string', default='z')
        self.put_str(eng, st, args[0], p, 0)
        return [(st, None)]

    def str_append(self, eng, st, args, rt):
        st, n = eng.load(st, padd(args[0], 8), ('i', 64))[0]
        if n != 0:
            raise Unsupported('append to a string that is not empty')
        self.put_str(eng, st, args[0], args[1], args[2])
        return [(st, args[0])]

    def length(self, eng, st, a, b):
        if not isinstance(a, P) or not isinstance(b, P) or a.o != b.o:
            raise Unsupported('range of characters of two objects')
        d = pdiff(a, b)
        st = eng.oblige(st, bv(d, 64) >= 0, eng.oname('memory safety', 'range of characters is in order'))
        return st, d

    def str_range(self, eng, st, args, rt):
        st, n = self.length(eng, st, args[2], args[1])
        if st is None:
            return []
        self.put_str(eng, st, args[0], args[1], n)
        return [(st, None)]

    def str_range_assign(self, eng, st, args, rt):
        st, n = self.length(eng, st, args[2], args[1])
        if st is None:
            return []
        st, old = eng.load(st, padd(args[0], 8), ('i', 64))[0]
        if old != 0:
            raise Unsupported('a string that is not empty')
        self.put_str(eng, st, args[0], args[1], n)
        return [(st, args[0])]

    def str_assign(self, eng, st, args, rt):
        self.put_str(eng, st, args[0], args[1], args[2])
        return [(st, args[0])]

    def str_cstr(self, eng, st, args, rt):
        s = cstring(eng, st, args[1])
        if s is None:
            raise Unsupported('string of unknown characters')
        self.put_str(eng, st, args[0], args[1], len(s))
        return [(st, None)]

    def str_ptr(self, eng, st, args, rt):
        self.put_str(eng, st, args[0], args[1], args[2])
        return [(st, None)]


# ---------------------------------------------------------------- division
Q3 = {}
R3 = {}


def quot(k):
    if k not in Q3:
        Q3[k] = z3.Function('quot%d' % k, z3.BitVecSort(64), z3.BitVecSort(64))
        R3[k] = z3.Function('rem%d' % k, z3.BitVecSort(64), z3.BitVecSort(64))
    return Q3[k], R3[k]


def div_axioms(k, x):
    """division by k with remainder, at x and at x+1"""
    q, r = quot(k)
    M = (1 << 64) - 1
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        v = x.as_long()
        return [q(x) == v // k, r(x) == v % k]
    out = [x == q(x) * k + r(x), z3.ULT(r(x), k), z3.ULE(q(x), M // k), z3.ULE(q(x), x)]
    return out


def next_axioms(k, x):
    q, r = quot(k)
    if z3.is_bv_value(x):
        return []
    y = z3.simplify(x + 1)
    c = r(x) == k - 1
    return [z3.Implies(z3.ULT(x, M64), z3.And(q(y) == z3.If(c, q(x) + 1, q(x)), r(y) == z3.If(c, z3.BitVecVal(0, 64), r(x) + 1)))]


class VecTheory(Theory):
    """exact division of multiples; division by small odd constants by quotient and remainder"""

    def binop(self, eng, op, n, a, b):
        if n != 64 or not isinstance(b, int) or not is_bv(a) or not 1 < b < 64:
            return None
        if op in ('sdiv', 'udiv', 'urem', 'srem'):
            c, ts = lin(a)
            if ts and c % b == 0 and all(k % b == 0 for k, _ in ts):
                q = lin_bv(s64(c) // b, tuple((k // b, t) for k, t in ts))
                # below 2^58 the product does not wrap
                if eng.check(eng.now, z3.UGE(q, 1 << 57)) == 'unsat':
                    return q if op.endswith('div') else 0
        if op in ('udiv', 'urem') and b & (b - 1):
            q, r = quot(b)
            self.pending += div_axioms(b, a)
            return q(a) if op == 'udiv' else r(a)
        return None
