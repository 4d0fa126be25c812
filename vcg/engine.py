"""Contract-based symbolic verification of LLVM IR functions (the VC generator).

Every function is executed symbolically over all its paths; calls are replaced by
the callee's contract when there is one (self.contracts) and otherwise entered;
loops are unrolled only while an exit test is decided by constants (or until the
solver shows no further iteration is feasible), and otherwise replaced by an
inductive invariant found by Houdini from the unit's candidate list.  Each memory
access, UBSan trap, assertion and contract clause is an obligation for z3.
"""
import re
import sys
import time
import z3

from .ir import Module, VOID

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The verifier cannot bring this code within reach (never a violation)."""


class LoopLimit(Exception):
    def __init__(self, frame, header):
        self.frame = frame
        self.header = header


M64 = (1 << 64) - 1


class P:
    """pointer: object id + (c + sum coef*term)"""
    __slots__ = ('o', 'c', 't')

    def __init__(self, o, c=0, t=()):
        self.o = o
        self.c = c
        self.t = t

    def __repr__(self):
        return 'P(%s,%s%s)' % (self.o, self.c, ''.join('+%d*%s' % x for x in self.t))


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'default', 'name', 'owner', 'meta', 'ro')

    def __init__(self, kind, size, name='', default=None, meta=None, ro=False):
        self.kind = kind          # 'bytes' | 'plug'
        self.size = size
        self.cells = {}
        self.default = default    # None: indeterminate, 'z': zero, bytes: constant data
        self.name = name
        self.owner = None
        self.meta = meta
        self.ro = ro

    def clone(self):
        o = Obj(self.kind, self.size, self.name, self.default, self.meta, self.ro)
        o.cells = dict(self.cells)
        return o


def is_conc(x):
    return isinstance(x, int)


def is_bv(x):
    return isinstance(x, z3.BitVecRef)


def is_b(x):
    return isinstance(x, z3.BoolRef)


def bv(x, n):
    if isinstance(x, int):
        return z3.BitVecVal(x, n)
    if is_b(x):
        return z3.If(x, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return x


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, P) and isinstance(b, P):
        return a.o == b.o and a.c == b.c and len(a.t) == len(b.t) and all(
            x[0] == y[0] and x[1].eq(y[1]) for x, y in zip(a.t, b.t))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def fold(e):
    """simplify; python value if constant"""
    e = z3.simplify(e)
    if is_b(e):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def boolof(x):
    """value of type i1 -> python int 0/1 or z3 Bool"""
    if isinstance(x, int):
        return x & 1
    if is_b(x):
        return x
    if is_bv(x):
        return fold(x == z3.BitVecVal(1, x.size()))
    raise Unsupported('bool of %r' % (x,))


def bnot(c):
    return (1 - c) if isinstance(c, int) else z3.Not(c)


def lin(x, coef=1, acc=None):
    """linear form of a 64-bit term: (const, [(coef, atom)])"""
    if acc is None:
        acc = [0, {}]
        lin(x, coef, acc)
        ts = tuple(sorted(((c & M64 if c & M64 < 1 << 63 else (c & M64) - (1 << 64), t)
                           for c, t in acc[1].values() if c & M64), key=lambda z: z[1].get_id()))
        return acc[0] & M64, ts
    if isinstance(x, int):
        acc[0] += coef * x
        return
    k = x.decl().kind()
    if k == z3.Z3_OP_BNUM:
        acc[0] += coef * x.as_long()
    elif k == z3.Z3_OP_BADD:
        for i in range(x.num_args()):
            lin(x.arg(i), coef, acc)
    elif k == z3.Z3_OP_BSUB and x.num_args() == 2:
        lin(x.arg(0), coef, acc)
        lin(x.arg(1), -coef, acc)
    elif k == z3.Z3_OP_BNEG:
        lin(x.arg(0), -coef, acc)
    elif k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
        lin(x.arg(1), coef * x.arg(0).as_long(), acc)
    elif k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(1)):
        lin(x.arg(0), coef * x.arg(1).as_long(), acc)
    else:
        c0, _ = acc[1].get(x.get_id(), (0, x))
        acc[1][x.get_id()] = (c0 + coef, x)


def lin_bv(c, ts):
    e = None
    for k, t in ts:
        m = t if k == 1 else t * z3.BitVecVal(k & M64, 64)
        e = m if e is None else e + m
    if e is None:
        return c & M64
    if c & M64:
        e = e + z3.BitVecVal(c & M64, 64)
    return e


def s64(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c


def poff(p):
    """offset of pointer as int or BV64"""
    return lin_bv(p.c, p.t) if p.t else p.c & M64


def padd(p, d):
    """pointer + (int | BV64)"""
    if isinstance(d, int):
        return P(p.o, s64(p.c + d), p.t)
    c, ts = lin(d)
    acc = {t.get_id(): (k, t) for k, t in p.t}
    for k, t in ts:
        k0, _ = acc.get(t.get_id(), (0, t))
        acc[t.get_id()] = (k0 + k, t)
    tt = tuple(sorted(((k, t) for k, t in acc.values() if k & M64), key=lambda z: z[1].get_id()))
    return P(p.o, s64(p.c + c), tt)


def pdiff(a, b):
    acc = {t.get_id(): (k, t) for k, t in a.t}
    for k, t in b.t:
        k0, _ = acc.get(t.get_id(), (0, t))
        acc[t.get_id()] = (k0 - k, t)
    ts = tuple(sorted(((k, t) for k, t in acc.values() if k & M64), key=lambda z: z[1].get_id()))
    return lin_bv(a.c - b.c, ts)


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class State:
    __slots__ = ('mem', 'asm', 'ev', 'gh', 'id', 'axids')

    def __init__(self):
        self.mem = {}
        self.asm = []       # [(z3 Bool, is_axiom)]
        self.ev = ()
        self.gh = {}
        self.axids = set()
        self.id = newid()

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.asm = list(self.asm)
        s.ev = self.ev
        s.gh = dict(self.gh)
        s.axids = set(self.axids)
        s.id = newid()
        self.id = newid()
        return s

    def assume(self, c, ax=False):
        if isinstance(c, int):
            return
        if ax:
            if c.get_id() in self.axids:
                return
            self.axids.add(c.get_id())
        self.asm.append((c, ax))

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone()
            o.owner = self.id
            self.mem[oid] = o
        return o

    def alloc(self, size, name='', default=None, kind='bytes', meta=None, ro=False):
        oid = newid()
        o = Obj(kind, size, name, default, meta, ro)
        o.owner = self.id
        self.mem[oid] = o
        return P(oid, 0)

    def event(self, *e):
        self.ev = self.ev + (e,)


class Obligation:
    __slots__ = ('name', 'status', 'model', 'detail', 'state', 'claim')

    def __init__(self, name, status, detail='', model=None, state=None, claim=None):
        self.name = name
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.detail = detail
        self.model = model
        self.state = state
        self.claim = claim


class Frame:
    __slots__ = ('fn', 'allocas', 'loops', 'pending')

    def __init__(self, fn):
        self.fn = fn
        self.allocas = []
        self.pending = {}
        self.loops = fn.loops()


class Engine:
    def __init__(self, mod, timeout_ms=20000):
        self.mod = mod
        self.solver = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []
        self.contracts = []      # [(predicate(demangled, mangled) , handler)]
        self._ccache = {}
        self.obligations = {}    # name -> count proved
        self.failures = []
        self.terminals = []
        self.quiet = 0
        self.loop_policy = {}
        self.force_unroll = None  # bounded mode: unroll limit, paths beyond are dropped
        self.bounded_hit = False
        self.theory = None
        self.gcache = {}
        self.globals_state = {}   # name -> Obj template (initialised globals)
        self.sym_iter_limit = 5
        self.lib_iter_limit = None
        self.lazy_leaves = False  # small loop-free functions: fork without asking the solver, join at return
        self.lazy = 0
        self.frame_only = 0
        self.fresh_ms = None     # second, non-incremental attempt at queries the incremental solver gives up on
        self._lazy = {}
        self.solver_time = 0.0
        self.nchecks = 0
        self.steps = 0
        self.max_steps = 20_000_000
        self.max_paths = 20000
        self.deadline = None
        self.fresh_n = 0
        self.called = set()      # functions entered (verified text)
        self.used_contracts = set()
        self.text_axioms = None  # hook(state, off_bv)
        self.invariants_used = []
        self.cur = []
        self.lost = 0            # paths ended or narrowed by a failed obligation

    # ------------------------------------------------------------ solver
    def fresh(self, name, n):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), n)

    def freshb(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))

    def _sync(self, st):
        k = 0
        S, A = self.stack, st.asm
        m = min(len(S), len(A))
        while k < m and (S[k] is A[k][0] or S[k].eq(A[k][0])):
            k += 1
        if k < len(S):
            self.solver.pop(len(S) - k)
            del S[k:]
        for c, _ in A[k:]:
            self.solver.push()
            self.solver.add(c)
            S.append(c)

    def check(self, st, *extra):
        """'sat'/'unsat'/'unknown' of path condition and extra"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        self._sync(st)
        t = time.time()
        r = self.solver.check(*extra) if extra else self.solver.check()
        if r == z3.unknown and self.fresh_ms:
            s = z3.Solver()
            s.set('timeout', self.fresh_ms)
            s.add([c for c, _ in st.asm])
            s.add(list(extra))
            r = s.check()
            self.last = s
        else:
            self.last = self.solver
        self.solver_time += time.time() - t
        self.nchecks += 1
        return str(r)

    def implied(self, st, claim, *defs):
        """claim follows from st and defs.  First with the literals of the path put into the
        claim (whatever is dropped on the way only weakens what is assumed), then in full"""
        lits, rest, todo = [], [], [c for c, ax in st.asm if not ax]
        while todo:
            c = todo.pop()
            if z3.is_and(c):
                todo += c.children()
            elif z3.is_not(c):
                lits.append((c.arg(0), z3.BoolVal(False)))
            else:
                lits.append((c, z3.BoolVal(True)))
        t = time.time()
        f = z3.simplify(z3.substitute(z3.And(*defs, z3.Not(claim)), *lits))
        r = z3.is_false(f)
        if not r:
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(f)
            for a, v in lits:
                if all(not z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) or x.num_args() == 0 for x in a.children()):
                    s.add(a == v)
            r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        self.nchecks += 1
        return r or self.check(st, *defs, z3.Not(claim)) == 'unsat'

    def feasible(self, st, c):
        if isinstance(c, int):
            return bool(c)
        return self.check(st, c) != 'unsat'

    def split(self, st, c):
        """fork on condition c; returns (state_true|None, state_false|None)"""
        c = boolof(c)
        if isinstance(c, int):
            return (st, None) if c else (None, st)
        c = fold(c)
        if isinstance(c, int):
            return (st, None) if c else (None, st)
        for a, _ in st.asm:
            if a.eq(c):
                return st, None
        nc = fold(z3.Not(c))
        for a, _ in st.asm:
            if a.eq(nc):
                return None, st
        if not self.lazy:
            if not self.feasible(st, c):
                return None, st
            if not self.feasible(st, nc):
                return st, None
        s2 = st.clone()
        st.assume(c)
        s2.assume(nc)
        return st, s2

    def oblige(self, st, c, name, detail=''):
        """obligation; afterwards the claim is assumed.  None if the path is over."""
        c = boolof(c) if not is_b(c) else c
        if is_b(c):
            c = fold(c)
        if isinstance(c, int) and c:
            if not self.quiet:
                self.obligations[name] = self.obligations.get(name, 0) + 1
            return st
        if isinstance(c, int):
            r = self.check(st)
            r = {'sat': 'refuted', 'unsat': 'proved'}.get(r, 'unknown')
        else:
            r = self.check(st, z3.Not(c))
            r = {'sat': 'refuted', 'unsat': 'proved'}.get(r, 'unknown')
        if r == 'proved':
            if not self.quiet:
                self.obligations[name] = self.obligations.get(name, 0) + 1
        elif not self.quiet:
            m = None
            if r == 'refuted':
                m = self.last.model()
            self.failures.append(Obligation(name, r, detail, m, st.clone(), c))
        if isinstance(c, int):
            self.lost += 1
            return None
        if r != 'proved':
            self.lost += 1
            if not self.feasible(st, c):
                return None
            st.assume(c)
        return st

    # ------------------------------------------------------------ memory
    def global_ptr(self, st, name):
        g = self.gcache.get(name)
        if g is None:
            g = 'g:' + name
            self.gcache[name] = g
        if g not in st.mem:
            st.mem[g] = self.make_global(name)
        return P(g, 0)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, str) and oid.startswith('g:'):
            o = st.mem[oid] = self.make_global(oid[2:])
        return o

    def make_global(self, name):
        o = self.globals_state.get(name)
        if o is not None:
            return o
        g = self.mod.get_global(name)
        if g.init is None:
            o = Obj('bytes', self.mod.sizeof(g.ty) if g.ty != ('s', (), False) else 1 << 20, name)
            o.meta = 'extern'
        else:
            o = Obj('bytes', self.mod.sizeof(g.ty), name, default='z', ro=g.const)
            self._init(o, 0, g.ty, g.init)
        o.owner = None
        self.globals_state[name] = o
        return o

    def _init(self, o, off, ty, v):
        k = v[0]
        if k in ('z', 'n'):
            return
        if k == 'u':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'a':
                es = self.mod.sizeof(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self._init(o, off + i * es, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    self._init(o, off + self.mod.field_off(ty, i), t, x)
            return
        val = self.const(None, ty, v)
        o.cells[off] = (self.mod.sizeof(ty), val)

    def const(self, st, ty, v):
        """constant operand value"""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'n':
            return 0
        if k == 'u':
            return self.undef(ty)
        if k == 'z':
            return self.zero(ty)
        if k == 'g':
            name = self.mod.aliases.get(v[1], v[1])
            if name in self.mod.functions or name in self.mod.declared:
                return Fn(name)
            if st is not None:
                return self.global_ptr(st, name)
            return P('g:' + name, 0)
        if k == 'gep':
            base = self.const(st, ('p',), v[2])
            return self.gep(v[1], base, [(t, self.const(st, t, x)) for t, x in v[3]])
        if k == 'fc' or k == 'fcx':
            import struct
            d = v[1] if k == 'fc' else v[2]
            if d is None:
                raise Unsupported('fp80 constant')
            if ty[1] == 64:
                return struct.unpack('<Q', struct.pack('<d', d))[0] if k == 'fc' else v[1]
            if k == 'fcx' and d != d:
                b = v[1]
                return ((b >> 63) << 31) | 0x7F800000 | ((b >> 29) & 0x7FFFFF)
            return struct.unpack('<I', struct.pack('<f', d))[0]
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cebin':
            return self.binop(v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]))
        if k == 'agg':
            return tuple(self.const(st, t, x) for t, x in v[1])
        raise Unsupported('constant %s' % (v,))

    def undef(self, ty):
        if ty[0] == 'i':
            return self.freshb('undef') if ty[1] == 1 else self.fresh('undef', ty[1])
        if ty[0] == 'f':
            return self.fresh('undef', ty[1])
        if ty[0] == 'p':
            return self.fresh('undefp', 64)
        if ty[0] == 's':
            return tuple(self.undef(t) for t in ty[1])
        if ty[0] == 'a':
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        raise Unsupported('undef %s' % (ty,))

    def zero(self, ty):
        if ty[0] in 'ifp':
            return 0
        if ty[0] == 's':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] == 'a':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %s' % (ty,))

    def gep(self, ty, base, idx):
        mod = self.mod
        off = 0
        dyn = None
        first = True
        t = ty
        for it, iv in idx:
            if first:
                sz = mod.sizeof(t)
                first = False
            elif t[0] == 's':
                off += mod.field_off(t, iv)
                t = t[1][iv]
                continue
            elif t[0] in ('a', 'vec'):
                t = t[2]
                sz = mod.sizeof(t)
            else:
                raise Unsupported('gep into %s' % (t,))
            if isinstance(iv, int):
                n = it[1]
                if iv >> (n - 1):
                    iv -= 1 << n
                off += iv * sz
            else:
                if is_b(iv):
                    iv = bv(iv, 64)
                elif isinstance(iv, P):
                    raise Unsupported('gep index pointer')
                elif iv.size() < 64:
                    iv = z3.SignExt(64 - iv.size(), iv)
                d = iv * z3.BitVecVal(sz, 64) if sz != 1 else iv
                dyn = d if dyn is None else dyn + d
        if isinstance(base, P):
            r = padd(base, off)
            return padd(r, dyn) if dyn is not None else r
        if isinstance(base, int):
            r = (base + off) & M64
            return r if dyn is None else r + dyn
        if is_bv(base):
            r = base + z3.BitVecVal(off & M64, 64) if off else base
            return r if dyn is None else r + dyn
        raise Unsupported('gep base %r' % (base,))

    def bounds(self, st, p, size, what):
        """bounds obligation; returns state or None"""
        o = self.obj(st, p.o)
        if o is None:
            return self.oblige(st, 0, self.oname('memory safety', what + ' of a dead object'))
        if o.size is None:
            return st
        if not p.t and isinstance(o.size, int) and isinstance(size, int):
            ok = 0 <= p.c and p.c + size <= o.size
            return self.oblige(st, int(ok), self.oname('memory safety', what),
                               'offset %d size %d in %s[%d]' % (p.c, size, o.name, o.size))
        off = bv(poff(p), 64)
        sz = bv(o.size, 64)
        n = bv(size, 64)
        return self.oblige(st, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off)),
                           self.oname('memory safety', what), 'in ' + o.name)

    def oname(self, kind, what):
        fn = self.cur[-1] if self.cur else '?'
        return '%s: %s (%s)' % (kind, what, fn)

    def load(self, st, p, ty):
        """-> list of (state, value)"""
        if ty[0] in ('s', 'a'):
            outs = [(st, ())]
            k = len(ty[1]) if ty[0] == 's' else ty[1]
            for i in range(k):
                o2, t2 = (self.mod.field_off(ty, i), ty[1][i]) if ty[0] == 's' else (
                    i * self.mod.sizeof(ty[2]), ty[2])
                outs = [(s2, acc + (v,)) for s1, acc in outs for s2, v in self.load(s1, padd(p, o2), t2)]
            return outs
        n = self.mod.sizeof(ty)
        if isinstance(p, P) and isinstance(p.o, str) and p.o.startswith('anyof:'):
            raise Unsupported('contents of one of several strings')
        if not isinstance(p, P):
            if isinstance(p, int):
                s = self.oblige(st, 0, self.oname('memory safety', 'null dereference'))
                return []
            raise Unsupported('load through opaque pointer %s' % (p,))
        st = self.bounds(st, p, n, 'load')
        if st is None:
            return []
        o = st.mem[p.o]
        if o.kind == 'plug':
            r = o.meta.load(self, st, p, n, ty)
            return r if isinstance(r, list) else [(st, r)]
        if p.t:
            return self.load_sym(st, p, ty, n)
        return [(st, self.coerce(self.load_raw(st, o, p.c, n), ty))]

    def load_sym(self, st, p, ty, n):
        out = []
        off = poff(p)
        o = st.mem[p.o]
        vals = self.enum(st, off, 300)
        groups = []
        for v in vals:
            x = self.coerce(self.load_raw(st, o, v, n), ty)
            for g in groups:
                if same(g[1], x):
                    g[0].append(v)
                    break
            else:
                groups.append(([v], x))
        if all(isinstance(g[1], int) or is_bv(g[1]) for g in groups) and ty[0] != 'p':
            e = bv(groups[-1][1], 8 * n)
            for vs, x in groups[:-1]:
                e = z3.If(z3.Or([off == v for v in vs]), bv(x, 8 * n), e)
            return [(st, fold(e))]
        for vs, x in groups:
            s = st.clone()
            s.assume(z3.Or([off == v for v in vs]))
            out.append((s, x))
        return out

    def enum(self, st, e, limit):
        """all values of a term on this path"""
        vals = []
        self._sync(st)
        self.solver.push()
        try:
            while True:
                if self.solver.check() != z3.sat:
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported('symbolic address with more than %d values' % limit)
                self.solver.add(e != v)
        finally:
            self.solver.pop()
        return vals

    def concretize(self, st, v, limit=64):
        """fork on the concrete values of v"""
        if isinstance(v, int):
            return [(st, v)]
        out = []
        for x in self.enum(st, v, limit):
            s = st.clone()
            s.assume(v == x)
            out.append((s, x))
        return out

    def coerce(self, v, ty):
        if ty[0] == 'i' and is_bv(v) and v.size() > ty[1]:
            v = fold(z3.Extract(ty[1] - 1, 0, v))
            if ty[1] == 1:
                v = boolof(v)
        elif ty[0] == 'i' and isinstance(v, int):
            v &= (1 << ty[1]) - 1
        return v

    def cell_at(self, o, off):
        """cell covering byte off -> (start,size,val) or None"""
        c = o.cells.get(off)
        if c:
            return off, c[0], c[1]
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c:
                if c[0] > d:
                    return off - d, c[0], c[1]
                return None
        return None

    def load_raw(self, st, o, off, n):
        c = o.cells.get(off)
        if c and c[0] == n:
            return c[1]
        # assemble from pieces, little endian
        parts = []
        i = off
        end = off + n
        while i < end:
            c = self.cell_at(o, i)
            if c is None:
                # gap: default
                j = i + 1
                while j < end and self.cell_at(o, j) is None:
                    j += 1
                k = j - i
                if o.default == 'z':
                    parts.append((k, 0))
                elif isinstance(o.default, bytes):
                    parts.append((k, int.from_bytes(o.default[i:j], 'little')))
                elif callable(o.default):
                    for b in range(i, j):
                        parts.append((1, o.default(b)))
                elif o.meta == 'extern':
                    raise Unsupported('read of external object ' + o.name)
                else:
                    w = self.fresh('undef', 8 * k)
                    ow = st.wobj(self._oid(st, o))
                    ow.cells[i] = (k, w)
                    o = ow
                    parts.append((k, w))
                i = j
                continue
            s, k, v = c
            a = i - s
            b = min(k, end - s)
            if a == 0 and b == k:
                parts.append((k, v))
            else:
                if isinstance(v, int):
                    parts.append((b - a, (v >> (8 * a)) & ((1 << (8 * (b - a))) - 1)))
                elif is_bv(v):
                    parts.append((b - a, fold(z3.Extract(8 * b - 1, 8 * a, v))))
                else:
                    raise Unsupported('partial load of a pointer in %s' % o.name)
            i = s + b
        if len(parts) == 1:
            return parts[0][1]
        if all(isinstance(v, int) for _, v in parts):
            r = 0
            sh = 0
            for k, v in parts:
                r |= v << sh
                sh += 8 * k
            return r
        if any(not isinstance(v, int) and not is_bv(v) for _, v in parts):
            raise Unsupported('mixed load in %s' % o.name)
        return fold(z3.Concat([bv(v, 8 * k) for k, v in reversed(parts)]))

    def _oid(self, st, o):
        for k, v in st.mem.items():
            if v is o:
                return k
        raise KeyError

    def store(self, st, p, ty, v):
        """-> list of states"""
        n = self.mod.sizeof(ty)
        if not isinstance(p, P):
            if isinstance(p, int):
                self.oblige(st, 0, self.oname('memory safety', 'null dereference'))
                return []
            raise Unsupported('store through opaque pointer')
        st = self.bounds(st, p, n, 'store')
        if st is None:
            return []
        o = st.mem[p.o]
        if o.ro:
            self.oblige(st, 0, self.oname('memory safety', 'store to constant'))
            return []
        if o.kind == 'plug':
            r = o.meta.store(self, st, p, n, v)
            return r if isinstance(r, list) else [st]
        if is_b(v):
            v = bv(v, 8 * n)
        elif is_bv(v) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if isinstance(v, tuple):
            out = [st]
            for i, x in enumerate(v):
                if ty[0] == 's':
                    o2, t2 = self.mod.field_off(ty, i), ty[1][i]
                else:
                    o2, t2 = i * self.mod.sizeof(ty[2]), ty[2]
                out = [s2 for s in out for s2 in self.store(s, padd(p, o2), t2, x)]
            return out
        if p.t:
            out = []
            for s, x in self.concretize(st, poff(p)):
                self.put(s, p.o, x, n, v)
                out.append(s)
            return out
        self.put(st, p.o, p.c, n, v)
        return [st]

    def put(self, st, oid, off, n, v):
        o = st.wobj(oid)
        c = o.cells.get(off)
        if c and c[0] == n:
            o.cells[off] = (n, v)
            return
        self.clear(o, off, n)
        o.cells[off] = (n, v)

    def clear(self, o, off, n):
        """forget the bytes [off, off+n), splitting partially covered cells"""
        if len(o.cells) < n:
            hits = [(s, c) for s, c in o.cells.items() if s < off + n and s + c[0] > off]
        else:
            hits = []
            for s in range(off - 15, off + n):
                c = o.cells.get(s)
                if c and s + c[0] > off:
                    hits.append((s, c))
        for s, (k, v) in hits:
            del o.cells[s]
            if s < off:
                a = off - s
                o.cells[s] = (a, self.piece(v, 0, a))
            if s + k > off + n:
                a = off + n - s
                o.cells[off + n] = (k - a, self.piece(v, a, k))

    def piece(self, v, a, b):
        if isinstance(v, int):
            return (v >> (8 * a)) & ((1 << (8 * (b - a))) - 1)
        if is_bv(v):
            return fold(z3.Extract(8 * b - 1, 8 * a, v))
        return self.fresh('undef', 8 * (b - a))   # bytes of a clobbered pointer

    def copy(self, st, d, s, n):
        """memcpy/memmove with concrete n"""
        if n == 0:
            return [st]
        for q in (d, s):
            if not isinstance(q, P):
                if isinstance(q, int):
                    self.oblige(st, 0, self.oname('memory safety', 'null in memcpy'))
                    return []
                raise Unsupported('memcpy opaque pointer')
        st = self.bounds(st, s, n, 'memcpy source')
        if st is None:
            return []
        st = self.bounds(st, d, n, 'memcpy destination')
        if st is None:
            return []
        so = st.mem[s.o]
        do = st.mem[d.o]
        if so.kind == 'plug' or do.kind == 'plug' or s.t or d.t:
            # word-wise through load/store (n must be a multiple of 8 or small)
            k = 8 if n % 8 == 0 else (4 if n % 4 == 0 else 1)
            if n // k > 64:
                raise Unsupported('memcpy on abstract object')
            states = [st]
            for i in range(0, n, k):
                nxt = []
                for x in states:
                    for y, v in self.load(x, padd(s, i), ('i', 8 * k)):
                        nxt.extend(self.store(y, padd(d, i), ('i', 8 * k), v))
                states = nxt
            return states
        cells = []
        i = s.c
        end = s.c + n
        while i < end:
            c = self.cell_at(so, i)
            if c is None:
                if so.default is None:
                    i += 1
                    continue
                cells.append((i - s.c, 1, self.load_raw(st, so, i, 1)))
                i += 1
                continue
            a, k, v = c
            lo = max(a, s.c)
            hi = min(a + k, end)
            if lo == a and hi == a + k:
                cells.append((lo - s.c, k, v))
            else:
                cells.append((lo - s.c, hi - lo, self.piece(v, lo - a, hi - a)))
            i = hi
        o = st.wobj(d.o)
        self.clear(o, d.c, n)
        for off, k, v in cells:
            o.cells[d.c + off] = (k, v)
        return [st]

    def set(self, st, d, byte, n):
        if n == 0:
            return [st]
        if not isinstance(d, P):
            raise Unsupported('memset opaque pointer')
        st = self.bounds(st, d, n, 'memset')
        if st is None:
            return []
        if d.t:
            raise Unsupported('memset symbolic offset')
        o = st.wobj(d.o)
        self.clear(o, d.c, n)
        if isinstance(byte, int) and byte == 0:
            i = 0
            while i < n:
                k = 8 if n - i >= 8 else 1
                o.cells[d.c + i] = (k, 0)
                i += k
        else:
            for i in range(n):
                o.cells[d.c + i] = (1, byte)
        return [st]

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, ty, a, b):
        if ty[0] == 'f':
            return self.fbin(op, ty, a, b)
        n = ty[1]
        m = (1 << n) - 1
        if n == 1:
            a, b = boolof(a), boolof(b)
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b}[op]
            za = z3.BoolVal(bool(a)) if isinstance(a, int) else a
            zb = z3.BoolVal(bool(b)) if isinstance(b, int) else b
            return fold({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor,
                         'sub': z3.Xor}[op](za, zb))
        if isinstance(a, P) or isinstance(b, P):
            return self.pbin(op, n, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < n else 0
            if op == 'lshr':
                return a >> b if b < n else 0
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            if op == 'ashr':
                return (sa >> min(b, n - 1)) & m
            if b == 0:
                raise Unsupported('division by zero reached')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (sa - q * sb) & m
            raise Unsupported(op)
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if op == 'and' and b == m:
                return a
            if op in ('mul', 'udiv', 'sdiv') and b == 1:
                return a
            if op in ('urem', 'srem') and b == 1:
                return 0
            if op in ('urem', 'udiv') and b & (b - 1) == 0:
                k = b.bit_length() - 1
                za = bv(a, n)
                return fold(za & (b - 1)) if op == 'urem' else fold(z3.LShR(za, k))
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
            if op == 'and' and a == m:
                return b
        if self.theory is not None:
            r = self.theory.binop(self, op, n, a, b)
            if r is not None:
                return r
        za, zb = bv(a, n), bv(b, n)
        f = {'add': lambda: za + zb, 'sub': lambda: za - zb, 'mul': lambda: za * zb,
             'and': lambda: za & zb, 'or': lambda: za | zb, 'xor': lambda: za ^ zb,
             'shl': lambda: za << zb, 'lshr': lambda: z3.LShR(za, zb), 'ashr': lambda: za >> zb,
             'udiv': lambda: z3.UDiv(za, zb), 'urem': lambda: z3.URem(za, zb),
             'sdiv': lambda: za / zb, 'srem': lambda: z3.SRem(za, zb)}[op]
        return fold(f())

    def pbin(self, op, n, a, b):
        if op == 'add':
            if isinstance(a, P) and not isinstance(b, P):
                return padd(a, b)
            if isinstance(b, P) and not isinstance(a, P):
                return padd(b, a)
        if op == 'sub' and isinstance(a, P):
            if isinstance(b, P):
                if a.o == b.o:
                    d = pdiff(a, b)
                    return d if isinstance(d, int) else fold(d)
                raise Unsupported('difference of pointers into different objects')
            if isinstance(b, int):
                return padd(a, -b)
            return padd(a, -b)
        if op == 'and' and isinstance(b, int) and b in (1, 3, 7, 15) and isinstance(a, P) and not a.t:
            return a.c & b
        raise Unsupported('pointer arithmetic %s' % op)

    def fbin(self, op, ty, a, b):
        raise Unsupported('floating-point %s' % op)

    def icmp(self, pred, ty, a, b):
        if ty[0] == 'p' or isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
            return self.pcmp(pred, a, b)
        n = ty[1]
        if n == 1:
            a, b = boolof(a), boolof(b)
            if isinstance(a, int) and isinstance(b, int):
                pass
            else:
                za = z3.BoolVal(bool(a)) if isinstance(a, int) else a
                zb = z3.BoolVal(bool(b)) if isinstance(b, int) else b
                e = za == zb
                return fold(e if pred == 'eq' else z3.Not(e))
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                h = 1 << (n - 1)
                a, b = a ^ h, b ^ h
            p = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b,
                        'le': a <= b}[p])
        za, zb = bv(a, n), bv(b, n)
        e = {'eq': lambda: za == zb, 'ne': lambda: za != zb, 'ugt': lambda: z3.UGT(za, zb),
             'uge': lambda: z3.UGE(za, zb), 'ult': lambda: z3.ULT(za, zb),
             'ule': lambda: z3.ULE(za, zb), 'sgt': lambda: za > zb, 'sge': lambda: za >= zb,
             'slt': lambda: za < zb, 'sle': lambda: za <= zb}[pred]()
        return fold(e)

    def pcmp(self, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred == 'eq':
                return int(eq)
            if pred == 'ne':
                return int(not eq)
            raise Unsupported('function pointer order')
        if isinstance(a, P) and isinstance(b, P):
            if a.o != b.o:
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                if pred in ('ult', 'ugt', 'ule', 'uge'):
                    # used by libstdc++ to test that ranges do not overlap
                    ia, ib = str(a.o), str(b.o)
                    return int({'ult': ia < ib, 'ugt': ia > ib, 'ule': ia <= ib,
                                'uge': ia >= ib}[pred])
                raise Unsupported('order of pointers into different objects')
            d = pdiff(a, b)
            if isinstance(d, int):
                if pred == 'eq':
                    return int(d == 0)
                if pred == 'ne':
                    return int(d != 0)
                sd = s64(d)
                return int({'ult': sd < 0, 'ugt': sd > 0, 'ule': sd <= 0, 'uge': sd >= 0,
                            'slt': sd < 0, 'sgt': sd > 0, 'sle': sd <= 0, 'sge': sd >= 0}[pred])
            za, zb = bv(poff(a), 64), bv(poff(b), 64)
            e = {'eq': lambda: za == zb, 'ne': lambda: za != zb, 'ult': lambda: z3.ULT(za, zb),
                 'ugt': lambda: z3.UGT(za, zb), 'ule': lambda: z3.ULE(za, zb),
                 'uge': lambda: z3.UGE(za, zb)}[pred]()
            return fold(e)
        if isinstance(a, P) or isinstance(b, P):
            o = b if isinstance(a, P) else a
            if isinstance(o, int):      # comparison with null
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
            if is_bv(o) and pred in ('eq', 'ne'):
                raise Unsupported('comparison of opaque and concrete pointer')
            raise Unsupported('pointer comparison')
        return self.icmp(pred, ('i', 64), a, b)

    def cast(self, op, t1, x, t2):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return x
        if op in ('trunc', 'zext', 'sext'):
            n1, n2 = t1[1], t2[1]
            if isinstance(x, P):
                raise Unsupported('integer cast of pointer')
            if n1 == 1:
                x = boolof(x)
            if isinstance(x, int):
                if op == 'sext' and x >> (n1 - 1):
                    return (x - (1 << n1)) & ((1 << n2) - 1)
                return x & ((1 << n2) - 1)
            if is_b(x):
                if op == 'sext':
                    return z3.If(x, z3.BitVecVal(-1, n2), z3.BitVecVal(0, n2))
                return bv(x, n2)
            if op == 'trunc':
                if n2 == 1:
                    # the usual bool load: i8 from If(b,1,0)
                    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
                        a1, a2 = x.arg(1).as_long() & 1, x.arg(2).as_long() & 1
                        if (a1, a2) == (1, 0):
                            return x.arg(0)
                        if (a1, a2) == (0, 1):
                            return fold(z3.Not(x.arg(0)))
                    return fold(z3.Extract(0, 0, x) == 1)
                return fold(z3.Extract(n2 - 1, 0, x))
            if op == 'zext':
                return fold(z3.ZeroExt(n2 - n1, x))
            return fold(z3.SignExt(n2 - n1, x))
        return self.fcast(op, t1, x, t2)

    def fcast(self, op, t1, x, t2):
        from . import fp
        return fp.fcast(self, op, t1, x, t2)

    def fcmp(self, pred, ty, a, b):
        from . import fp
        return fp.fcmp(self, pred, ty, a, b)

    # ------------------------------------------------------------ execution
    def val(self, st, regs, ty, v):
        if v[0] == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %s not available' % v[1])
        if v[0] == 'c':
            return v[1]
        return self.const(st, ty, v)

    def contract_for(self, name):
        c = self._ccache.get(name, 0)
        if c == 0:
            dem = self.mod.demangle(name)
            c = None
            for pred, h in self.contracts:
                if pred(dem, name):
                    c = h
                    break
            self._ccache[name] = c
        return c

    def call(self, st, callee, args, rt):
        """-> list of (state, value)"""
        if isinstance(callee, int):
            self.oblige(st, 0, self.oname('memory safety', 'call through null'))
            return []
        if not isinstance(callee, Fn):
            h = self.theory.indirect(self, st, callee, args, rt) if self.theory else None
            if h is not None:
                return h
            raise Unsupported('indirect call through %r' % (callee,))
        name = callee.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, rt)
        h = self.contract_for(name)
        if h is not None:
            self.used_contracts.add(self.mod.demangle(name))
            r = h(self, st, args, rt)
            if r is not NotImplemented:
                return r
        fn = self.mod.functions.get(name)
        if fn is None:
            raise Unsupported('external function %s' % self.mod.demangle(name))
        return self.call_defined(st, fn, args, rt)

    def call_defined(self, st, fn, args, rt):
        pre_mem = dict(st.mem)
        pre_asm = len(st.asm)
        pre_ev = st.ev
        nterm = len(self.terminals)
        nlost = self.lost
        lazy = self.lazy_leaves and ' std::' not in ' ' + short(fn.demangled) and self.is_leaf(fn)
        self.lazy += 1 if lazy else 0
        try:
            outs = self.exec_fn(st, fn, args)
        finally:
            self.lazy -= 1 if lazy else 0
        if len(outs) <= 1:
            return outs
        outs = self.merge_pure(outs, pre_mem, pre_asm, pre_ev, nterm, nlost, rt)
        if lazy and len(outs) > 1:
            outs = self.join_returns(outs, pre_mem, pre_asm, pre_ev, rt)
        return outs

    def is_leaf(self, fn):
        r = self._lazy.get(fn.name)
        if r is not None:
            return r
        self._lazy[fn.name] = False
        if ' std::' in ' ' + short(fn.demangled) or ' __gnu_cxx::' in ' ' + short(fn.demangled):
            self._lazy[fn.name] = True
            return True
        if fn.name == '__clang_call_terminate':
            self._lazy[fn.name] = True
            return True
        fn.parse()
        r = not fn.loops() and len(fn._blocks) <= 24
        for b in list(fn._blocks) if r else ():
            for i in fn.block(b):
                if i[0] in ('call', 'invoke'):
                    c = i[3]
                    nm = c[1] if c and c[0] in ('g', 'glob') else None
                    if nm is None or not (nm.startswith('llvm.') or self.contract_for(nm) is not None or
                                          nm in self.mod.functions and self.is_leaf(self.mod.functions[nm])):
                        r = False
        self._lazy[fn.name] = r
        return r

    def join_returns(self, outs, pre_mem, pre_asm, pre_ev, rt):
        """one state for the returns of a leaf, when they differ in integers only"""
        sts = [s for s, _ in outs]
        if any(s.ev != pre_ev or s.gh != sts[0].gh or set(s.mem) != set(sts[0].mem) for s in sts):
            return outs
        conds, axs = [], {}
        for s in sts:
            cs = [c for c, ax in s.asm[pre_asm:] if not ax]
            for c, ax in s.asm[pre_asm:]:
                if ax:
                    axs[c.get_id()] = c
            conds.append(z3.And(cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
        new = {}
        for oid in sts[0].mem:
            objs = [s.mem[oid] for s in sts]
            if all(o is objs[0] for o in objs):
                continue
            if any(o.kind != 'bytes' or o.meta is not objs[0].meta or not same(o.size, objs[0].size) or set(o.cells) != set(objs[0].cells) for o in objs):
                return outs
            o = objs[0].clone()
            for off, (n, v) in objs[0].cells.items():
                vs = [x.cells[off] for x in objs]
                if all(x[0] == n and same(x[1], v) for x in vs):
                    continue
                if any(x[0] != n or not (isinstance(x[1], int) or is_bv(x[1])) for x in vs):
                    return outs
                e = bv(vs[-1][1], 8 * n)
                for c, x in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                    e = z3.If(c, bv(x[1], 8 * n), e)
                o.cells[off] = (n, fold(e))
            new[oid] = o
        v = outs[-1][1]
        for c, (s, x) in zip(reversed(conds[:-1]), reversed(outs[:-1])):
            v = self.ite(c, x, v, rt) if rt[0] != 'v' else None
            if v is NotImplemented:
                return outs
        st = sts[0]
        st.asm = st.asm[:pre_asm]
        st.axids = {c.get_id() for c, ax in st.asm if ax}
        for c in axs.values():
            st.assume(c, True)
        o = fold(z3.Or(conds))
        if not isinstance(o, int):
            st.assume(o)
        for oid, o in new.items():
            o.owner = None
            st.mem[oid] = o
        return [(st, v)]

    def merge_pure(self, outs, pre_mem, pre_asm, pre_ev, nterm, nlost, rt):
        for s, v in outs:
            if s.ev is not pre_ev and s.ev != pre_ev:
                return outs
            if len(s.mem) != len(pre_mem):
                # lazily created globals are harmless
                extra = [k for k in s.mem if k not in pre_mem]
                if any(not (isinstance(k, str) and k.startswith('g:')) for k in extra):
                    return outs
            for k, o in pre_mem.items():
                n = s.mem.get(k)
                if n is o:
                    continue
                if n is None or not self.obj_same(o, n):
                    return outs
        conds = []
        axs = []
        seen = set()
        for s, v in outs:
            cs = []
            for c, ax in s.asm[pre_asm:]:
                if ax:
                    if c.get_id() not in seen:
                        seen.add(c.get_id())
                        axs.append(c)
                else:
                    cs.append(c)
            conds.append(z3.And(cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
        v = outs[-1][1]
        for c, (s, x) in zip(reversed(conds[:-1]), reversed(outs[:-1])):
            v = self.ite(c, x, v, rt)
            if v is NotImplemented:
                return outs
        st = outs[0][0]
        for s, _ in outs[1:]:
            for k, o in s.mem.items():
                if k not in st.mem:
                    st.mem[k] = o
        st.asm = st.asm[:pre_asm]
        st.axids = {c.get_id() for c, ax in st.asm if ax}
        for c in axs:
            st.assume(c, True)
        if len(self.terminals) > nterm or self.lost != nlost:
            # some path inside ended: the returned value is only for the others
            o = fold(z3.Or(conds))
            if not isinstance(o, int):
                st.assume(o)
        return [(st, v)]

    def obj_same(self, a, b):
        if a.kind != b.kind or not same(a.size, b.size) or a.meta is not b.meta:
            return False
        if len(a.cells) != len(b.cells):
            # reading an indeterminate cell materialises it
            pass
        for k, (n, v) in a.cells.items():
            c = b.cells.get(k)
            if c is None or c[0] != n or not same(c[1], v):
                return False
        if len(b.cells) > len(a.cells):
            for k, (n, v) in b.cells.items():
                if k not in a.cells and not (is_bv(v) and v.decl().name().startswith('undef')):
                    return False
        return True

    def ite(self, c, a, b, ty):
        if same(a, b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = []
            for i, (x, y) in enumerate(zip(a, b)):
                z = self.ite(c, x, y, ty[1][i] if ty[0] == 's' else ty[2])
                if z is NotImplemented:
                    return z
                r.append(z)
            return tuple(r)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P) and a.o == b.o:
                d = fold(z3.If(c, bv(poff(a), 64), bv(poff(b), 64)))
                return padd(P(a.o, 0), d)
            if isinstance(a, P) and isinstance(b, P) and self.anyof(a) and self.anyof(b):
                return P('anyof:' + '|'.join(sorted(set(members(a) + members(b)))), 0)
            return NotImplemented
        if isinstance(a, Fn) or isinstance(b, Fn) or a is None or b is None:
            return NotImplemented
        if ty == ('i', 1):
            a, b = boolof(a), boolof(b)
            za = z3.BoolVal(bool(a)) if isinstance(a, int) else a
            zb = z3.BoolVal(bool(b)) if isinstance(b, int) else b
            return fold(z3.If(c, za, zb))
        if ty[0] not in 'ipf':
            return NotImplemented
        n = 64 if ty[0] == 'p' else ty[1]
        return fold(z3.If(c, bv(a, n), bv(b, n)))

    def anyof(self, p):
        """a pointer to a constant character string: which one may be forgotten"""
        if isinstance(p.o, str) and p.o.startswith('anyof:'):
            return True
        if not (isinstance(p.o, str) and p.o.startswith('g:')) or p.c or p.t:
            return False
        g = self.mod.get_global(p.o[2:])
        return bool(g.const and g.init is not None and g.init[0] == 'str')

    def exec_fn(self, st, fn, args):
        loops = fn.loops()
        st0 = st.clone() if loops else None
        snap = (dict(self.obligations), len(self.failures), len(self.terminals))
        while True:
            frame = Frame(fn)
            self.called.add(fn.name)
            self.cur.append(short(fn.demangled))
            depth = len(self.cur)
            if depth > 120:
                raise Unsupported('call depth')
            try:
                regs = {}
                for (t, nm), a in zip(fn.params, args):
                    if nm is not None:
                        regs[nm] = a
                if fn.vararg:
                    regs['...'] = list(args[len(fn.params):])
                rets, _ = self.run([(st, regs, fn.entry, None, 0, {})], frame, None)
                return rets
            except LoopLimit as e:
                if e.frame is not frame:
                    raise
                if self.loop_policy.get((fn.name, e.header)) == 'abstract':
                    raise Unsupported('loop %s in %s' % (e.header, short(fn.demangled)))
                self.loop_policy[(fn.name, e.header)] = 'abstract'
                self.obligations, nf, nt = dict(snap[0]), snap[1], snap[2]
                del self.failures[nf:]
                del self.terminals[nt:]
                st = st0.clone()
            finally:
                del self.cur[depth - 1:]

    def run(self, items, frame, stop):
        """explore; -> (returns [(state, value)], stopped [(label, item)])"""
        fn = frame.fn
        loops = frame.loops
        rets = []
        stopped = []
        work = list(items)
        npaths = 0
        outer_pend = frame.pending
        frame.pending = {}
        while work or frame.pending:
            if not work:
                k = max(frame.pending, key=lambda k: (sum(k[0] in b for b in loops.values()), -k[2]))
                work.extend(self.merge_items(frame.pending.pop(k)))
            item = work.pop()
            st, regs, blk, prev, idx, lp = item
            cont = True
            while cont:
                insts = fn.block(blk)
                if idx == 0:
                    # phis, simultaneously
                    newv = []
                    i = 0
                    while insts[i][0] == 'phi':
                        _, d, t, inc = insts[i]
                        for v, b in inc:
                            if b == prev:
                                newv.append((d, self.val(st, regs, t, v)))
                                break
                        i += 1
                    if newv:
                        regs = dict(regs)
                        for d, v in newv:
                            regs[d] = v
                    idx = i
                cont = False
                n = len(insts)
                while idx < n:
                    ins = insts[idx]
                    idx += 1
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Unsupported('step budget')
                    op = ins[0]
                    if op == 'load':
                        r = self.load(st, self.val(st, regs, ('p',), ins[3]), ins[2])
                        if len(r) == 1:
                            st, regs[ins[1]] = r[0]
                            continue
                        for s, v in r:
                            g = dict(regs)
                            g[ins[1]] = v
                            work.append((s, g, blk, prev, idx, {k: list(x) for k, x in lp.items()}))
                        break
                    elif op == 'store':
                        r = self.store(st, self.val(st, regs, ('p',), ins[3]), ins[1],
                                       self.val(st, regs, ins[1], ins[2]))
                        if len(r) == 1:
                            st = r[0]
                            continue
                        for s in r:
                            work.append((s, dict(regs), blk, prev, idx, {k: list(x) for k, x in lp.items()}))
                        break
                    elif op == 'alloca':
                        p = st.alloc(self.mod.sizeof(ins[2]), ins[1] or 'tmp')
                        frame.allocas.append(p.o)
                        regs[ins[1]] = p
                    elif op == 'gep':
                        base = self.val(st, regs, ('p',), ins[3])
                        regs[ins[1]] = self.gep(ins[2], base,
                                                [(t, self.val(st, regs, t, v)) for t, v in ins[4]])
                    elif op == 'bin':
                        a = self.val(st, regs, ins[3], ins[4])
                        b = self.val(st, regs, ins[3], ins[5])
                        self.now = st
                        regs[ins[1]] = self.binop(ins[2], ins[3], a, b)
                        if self.theory is not None and self.theory.pending:
                            for c in self.theory.pending:
                                st.assume(c, True)
                            self.theory.pending = []
                    elif op == 'icmp':
                        regs[ins[1]] = self.icmp(ins[2], ins[3], self.val(st, regs, ins[3], ins[4]),
                                                 self.val(st, regs, ins[3], ins[5]))
                    elif op == 'fcmp':
                        regs[ins[1]] = self.fcmp(ins[2], ins[3], self.val(st, regs, ins[3], ins[4]),
                                                 self.val(st, regs, ins[3], ins[5]))
                    elif op == 'fneg':
                        x = self.val(st, regs, ins[2], ins[3])
                        w = ins[2][1]
                        regs[ins[1]] = self.binop('xor', ('i', w), x, 1 << (w - 1))
                    elif op == 'cast':
                        regs[ins[1]] = self.cast(ins[2], ins[3], self.val(st, regs, ins[3], ins[4]),
                                                 ins[5])
                        self.flush(st)
                    elif op == 'select':
                        c = boolof(self.val(st, regs, ('i', 1), ins[3]))
                        a = self.val(st, regs, ins[2], ins[4])
                        b = self.val(st, regs, ins[2], ins[5])
                        if isinstance(c, int):
                            regs[ins[1]] = a if c else b
                        else:
                            v = self.typed_ite(c, a, b, ins[2])
                            if v is NotImplemented:
                                t, f = self.split(st, c)
                                for s, x in ((t, a), (f, b)):
                                    if s is not None:
                                        g = dict(regs)
                                        g[ins[1]] = x
                                        work.append((s, g, blk, prev, idx, {k: list(x2) for k, x2 in lp.items()}))
                                break
                            regs[ins[1]] = v
                    elif op == 'call' or op == 'invoke':
                        callee = self.val(st, regs, ('p',), ins[3])
                        if isinstance(callee, Fn) and callee.name.startswith('llvm.dbg'):
                            continue
                        args = []
                        for t, v, byval in ins[4]:
                            if v is None:
                                args.append(None)
                                continue
                            a = self.val(st, regs, t, v)
                            if byval is not None:
                                q = st.alloc(self.mod.sizeof(byval), 'byval')
                                frame.allocas.append(q.o)
                                self.copy(st, q, a, self.mod.sizeof(byval))
                                a = q
                            args.append(a)
                        if isinstance(callee, Fn) and callee.name.startswith('llvm.va_start'):
                            self.va_start(st, args[0], regs.get('...', []))
                            continue
                        r = self.call(st, callee, args, ins[2])
                        rt = ins[2]
                        if len(r) == 1 and op == 'call':
                            st = r[0][0]
                            if ins[1] is not None:
                                regs[ins[1]] = self.retfix(r[0][1], rt)
                            continue
                        for k, (s, v) in enumerate(r):
                            g = dict(regs)
                            if ins[1] is not None:
                                g[ins[1]] = self.retfix(v, rt)
                            l2 = {a: list(x) for a, x in lp.items()}
                            if op == 'call':
                                work.append((s, g, blk, prev, idx, l2))
                            else:
                                self.goto(work, stopped, rets, frame, stop, s, g, blk, ins[5], l2)
                        break
                    elif op == 'br':
                        x = self.goto(None, stopped, rets, frame, stop, st, regs, blk, ins[1], lp)
                        if x is not None:
                            if isinstance(x, list):
                                work.extend(x)
                            else:
                                st, regs, blk, prev, idx, lp = x
                                cont = True
                        break
                    elif op == 'cbr':
                        c = self.val(st, regs, ('i', 1), ins[1])
                        c = boolof(c)
                        if isinstance(c, int):
                            # a constant exit test: concrete loop progress
                            # (not when it comes from a short-circuit over symbolic tests)
                            phi = any(i[0] == 'phi' and ('r', i[1]) == tuple(ins[1][:2]) for i in insts[:4])
                            for h in lp if not phi else ():
                                b = loops[h]
                                if blk in b and any(d not in b and fn.block(d)[-1][0] != 'unreachable' for d in (ins[2], ins[3])):
                                    lp[h][1] = True
                            x = self.goto(None, stopped, rets, frame, stop, st, regs, blk,
                                          ins[2] if c else ins[3], lp)
                            if x is not None:
                                if isinstance(x, list):
                                    work.extend(x)
                                else:
                                    st, regs, blk, prev, idx, lp = x
                                    cont = True
                            break
                        t, f = self.split(st, c)
                        for s, dst in ((f, ins[3]), (t, ins[2])):
                            if s is not None:
                                self.goto(work, stopped, rets, frame, stop, s, dict(regs), blk, dst,
                                          {k: list(x) for k, x in lp.items()})
                        break
                    elif op == 'switch':
                        v = self.val(st, regs, ins[1], ins[2])
                        if isinstance(v, int):
                            dst = ins[3]
                            for k, l in ins[4]:
                                if k == v:
                                    dst = l
                            self.goto(work, stopped, rets, frame, stop, st, regs, blk, dst, lp)
                            break
                        w = ins[1][1]
                        bydst = {}
                        for k, l in ins[4]:
                            bydst.setdefault(l, []).append(v == z3.BitVecVal(k, w))
                        allc = [c for cs in bydst.values() for c in cs]
                        if ins[3] in bydst:
                            bydst[ins[3]].append(z3.Not(z3.Or(allc)))
                        else:
                            bydst[ins[3]] = [z3.Not(z3.Or(allc))]
                        for l, cs in bydst.items():
                            c = fold(z3.Or(cs))
                            if isinstance(c, int) and not c:
                                continue
                            if not self.lazy and not self.feasible(st, c):
                                continue
                            s = st.clone()
                            s.assume(c)
                            self.goto(work, stopped, rets, frame, stop, s, dict(regs), blk, l,
                                      {k: list(x) for k, x in lp.items()})
                        break
                    elif op == 'ret':
                        v = None
                        if ins[2] is not None:
                            v = self.val(st, regs, ins[1], ins[2])
                        for a in frame.allocas:
                            st.mem.pop(a, None)
                        rets.append((st, v))
                        npaths += 1
                        if npaths > self.max_paths:
                            raise Unsupported('path budget')
                        break
                    elif op == 'extractvalue':
                        v = self.val(st, regs, ins[2], ins[3])
                        for i in ins[4]:
                            v = v[i]
                        regs[ins[1]] = v
                    elif op == 'insertvalue':
                        v = self.val(st, regs, ins[2], ins[3])
                        regs[ins[1]] = insert(v, ins[6], self.val(st, regs, ins[4], ins[5]))
                    elif op == 'freeze':
                        regs[ins[1]] = self.val(st, regs, ins[2], ins[3])
                    elif op == 'unreachable':
                        self.oblige(st, 0, self.oname('undefined behaviour', 'unreachable reached'))
                        break
                    elif op == 'nop':
                        pass
                    else:
                        raise Unsupported('instruction %s' % (ins[:3],))
        frame.pending = outer_pend
        return rets, stopped

    def flush(self, st):
        if self.theory is not None and self.theory.pending:
            for c in self.theory.pending:
                st.assume(c, True)
            self.theory.pending = []

    def retfix(self, v, rt):
        return v

    def typed_ite(self, c, a, b, ty):
        return self.ite(c, a, b, ty)

    def goto(self, work, stopped, rets, frame, stop, st, regs, src, dst, lp):
        """take an edge; appends to work, or (work is None) returns the item"""
        loops = frame.loops
        # leaving loops
        for h in [h for h in lp if dst not in loops[h]]:
            del lp[h]
        if stop is not None:
            lab = stop(src, dst)
            if lab is not None:
                stopped.append((lab, (st, regs, dst, src, 0, lp)))
                return None
        if dst in loops:
            body = loops[dst]
            if src not in body:
                lp[dst] = [0, False, 0]
                pol = self.loop_policy.get((frame.fn.name, dst))
                if pol is None and self.force_unroll is None and self.theory is not None \
                        and self.theory.prefer_abstract(frame.fn, dst):
                    pol = 'abstract'
                if pol == 'abstract' and self.force_unroll is None:
                    items = self.abstract_loop(st, regs, src, dst, frame, lp)
                    if work is None:
                        return items
                    work.extend(items)
                    return None
            else:
                rec = lp.get(dst)
                if rec is not None:
                    if rec[0] == 'ABS':
                        self.backedge(st, frame, dst, rec)
                        return None
                    if not rec[1]:
                        rec[0] += 1
                    rec[1] = False
                    rec[2] += 1
                    if self.force_unroll is not None:
                        if rec[0] > self.force_unroll:
                            self.bounded_hit = True
                            return None
                    elif rec[0] > (self.lib_iter_limit if self.lib_iter_limit and ' std::' in ' ' + short(frame.fn.demangled) else self.sym_iter_limit):
                        raise LoopLimit(frame, dst)
        it = (st, regs, dst, src, 0, lp)
        if dst in loops and self.theory is not None and self.theory.merge_at(frame.fn, dst):
            frame.pending.setdefault((dst, src, lp[dst][2] if dst in lp else 0), []).append(it)
            return None
        if work is None:
            return it
        work.append(it)
        return None

    def merge_items(self, items):
        """joins states that arrive at the same point of the same iteration"""
        groups = []
        for it in items:
            for g in groups:
                if self.mergeable(g[0], it):
                    g.append(it)
                    break
            else:
                groups.append([it])
        out = [self.join(g) if len(g) > 1 else g[0] for g in groups]
        for it in out:
            self.theory.at_merge(self, it[0])
        return out

    def mergeable(self, x, y):
        a, b = x[0], y[0]
        for s in (a, b):
            for k in self.theory.merge_drop:
                s.gh.pop(k, None)
        if a.ev != b.ev or set(a.gh) != set(b.gh) or any(not same(a.gh[k], b.gh[k]) and a.gh[k] != b.gh[k] for k in a.gh):
            return False
        # pointer-valued cells agree
        for oid, o in a.mem.items():
            n = b.mem.get(oid)
            if n is None or n is o:
                continue
            if o.kind == 'plug' or n.kind == 'plug':
                if o.meta is not n.meta and o.meta != n.meta:
                    return False
                continue
            if self.theory.merge_key(self, oid, o) and not self.theory.merge_same(self, oid, o, n):
                return False
        return True

    def join(self, g):
        sts = [it[0] for it in g]
        k = 0
        m = min(len(s.asm) for s in sts)
        while k < m and all(s.asm[k][0] is sts[0].asm[k][0] or s.asm[k][0].eq(sts[0].asm[k][0]) for s in sts):
            k += 1
        conds, axs = [], {}
        for s in sts:
            cs = []
            for c, ax in s.asm[k:]:
                if ax:
                    axs[c.get_id()] = c
                else:
                    cs.append(c)
            conds.append(z3.And(cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
        out = sts[0].clone()
        out.asm = out.asm[:k]
        out.axids = {c.get_id() for c, ax in out.asm if ax}
        c = fold(self.theory.path_lemma(self, out, sts, z3.Or(conds)))
        if not (isinstance(c, int) and c):
            for a in axs.values():
                out.assume(a, True)
        if not isinstance(c, int):
            out.assume(c)
        # memory
        oids = {}
        joined = []
        for s in sts:
            for oid in s.mem:
                oids.setdefault(oid, []).append(s)
        for oid, ss in oids.items():
            objs = [s.mem[oid] for s in ss]
            if all(o is objs[0] for o in objs):
                out.mem[oid] = objs[0]
                continue
            if objs[0].kind == 'plug':
                out.mem[oid] = objs[0]
                continue
            cs = [conds[sts.index(s)] for s in ss]
            o = objs[0].clone()
            o.owner = out.id
            out.mem[oid] = o
            offs = set()
            for x in objs:
                offs |= set(x.cells)
            for off in offs:
                vs = [x.cells.get(off) for x in objs]
                if all(v is not None and v[0] == vs[0][0] and same(v[1], vs[0][1]) for v in vs if vs[0] is not None) and vs[0] is not None:
                    o.cells[off] = vs[0]
                    continue
                o.cells.pop(off, None)
                if any(v is None or v[0] != (vs[0][0] if vs[0] else -1) or not (isinstance(v[1], int) or is_bv(v[1])) for v in vs):
                    if o.default is not None:
                        raise Unsupported('join of differing objects')
                    continue      # indeterminate from here on
                n = 8 * vs[0][0]
                e = bv(vs[-1][1], n)
                for c, v in zip(reversed(cs[:-1]), reversed(vs[:-1])):
                    e = z3.If(c, bv(v[1], n), e)
                o.cells[off] = (vs[0][0], fold(e))
                joined.append((oid, off, vs))
        self.theory.joined(self, out, sts, joined)
        regs = {}
        for r in g[0][1]:
            v0 = g[0][1][r]
            if all(r in it[1] and same(it[1][r], v0) for it in g):
                regs[r] = v0
        _, _, blk, prev, idx, lp = g[0]
        lp = {h: list(x) for h, x in lp.items()}
        return (out, regs, blk, prev, idx, lp)

    # ------------------------------------------------------------ loops
    def body_runs(self, st, regs, src, h, frame, lp):
        """run one iteration from state st; -> states arriving at the header again"""
        body = frame.loops[h]
        outer = dict(lp)
        outer[h] = ['HOUDINI', False, 0]

        def stop(s, d):
            if d == h and s in body:
                return 'back'
            if s in body and d not in body:
                return 'exit'
            return None
        self.quiet += 1
        nt = len(self.terminals)
        na = len(frame.allocas)
        try:
            _, stopped = self.run([(st, dict(regs), h, src, 0, outer)], frame, stop)
        finally:
            self.quiet -= 1
        del self.terminals[nt:]
        return [it[0] for lab, it in stopped if lab == 'back']

    def diff(self, a, b):
        """cells of objects present in a that differ in b: {(oid, off, size)}"""
        out = {}
        for oid, o in a.mem.items():
            n = b.mem.get(oid)
            if n is o:
                continue
            if n is None:
                continue
            if o.kind == 'plug' or n.kind == 'plug':
                if n.meta is not o.meta:
                    out[(oid, None, None)] = True
                continue
            offs = set(o.cells) | set(n.cells)
            for off in offs:
                x, y = o.cells.get(off), n.cells.get(off)
                if x is None or y is None:
                    if x is None and y is not None and is_bv(y[1]) and y[1].decl().name().startswith('undef!'):
                        continue
                    c = x or y
                    out[(oid, off, c[0])] = True
                elif x[0] != y[0] or not same(x[1], y[1]):
                    out[(oid, off, max(x[0], y[0]))] = True
        return out

    def abstract_loop(self, st, regs, src, h, frame, lp):
        th = self.theory
        if th is None:
            raise Unsupported('loop without a decided bound in ' + short(frame.fn.demangled))
        S0 = st
        M = {}
        samples = {}
        for rnd in range(12):
            S = S0.clone()
            hv = th.havoc(self, S0, S, M, samples)
            self.frame_only += 1      # inner loops: their frame is enough
            try:
                backs = self.body_runs(S.clone(), regs, src, h, frame, lp)
            finally:
                self.frame_only -= 1
            new = {}
            for b in backs:
                if b.ev != S.ev:
                    th.loop_events(self, S0, S, b)
                for key in self.diff(S, b):
                    if key not in M:
                        new[key] = True
                    samples.setdefault(key, []).append(self.peek(b, key))
                for key in M:
                    samples.setdefault(key, []).append(self.peek(b, key))
            if not new:
                break
            M.update(new)
        else:
            raise Unsupported('loop frame does not stabilise')
        if not backs:
            # never iterates
            pass
        cands = th.candidates(self, S0, S, M, hv) if not self.frame_only else []
        # entry filter
        live = []
        self.quiet += 1
        for nm, f in cands:
            c = f(S0)
            if c is None:
                continue
            c = fold(c) if is_b(c) else c
            if isinstance(c, int):
                if c:
                    live.append((nm, f))
            elif self.check(S0, z3.Not(c)) == 'unsat':
                live.append((nm, f))
        self.quiet -= 1
        rounds = 0
        while True:
            rounds += 1
            Si = S.clone()
            ok = True
            for nm, f in live:
                c = f(Si)
                if c is not None:
                    Si.assume(c if is_b(c) else z3.BoolVal(bool(c)))
            th.after_invariants(self, S0, Si, M, hv)
            backs = self.body_runs(Si.clone(), regs, src, h, frame, lp)
            bad = set()
            for b in backs:
                th.prepare_back(self, S0, Si, b, M, hv)
                goals = []
                for nm, f in live:
                    if nm in bad:
                        continue
                    c = f(b)
                    if c is None:
                        bad.add(nm)
                        continue
                    c = fold(c) if is_b(c) else c
                    if isinstance(c, int):
                        if not c and self.check(b) != 'unsat':
                            bad.add(nm)
                        continue
                    goals.append((nm, c))
                # all at once first
                while goals:
                    r = self.check(b, z3.Not(z3.And([c for _, c in goals])))
                    if r == 'unsat':
                        break
                    if r == 'sat':
                        m = self.last.model()
                        drop = [nm for nm, c in goals
                                if z3.is_false(m.eval(c, model_completion=True))]
                        if not drop:
                            drop = [goals[0][0]]
                    else:
                        drop = []
                        for nm, c in goals:
                            if self.check(b, z3.Not(c)) != 'unsat':
                                drop.append(nm)
                        bad.update(drop)
                        break
                    bad.update(drop)
                    goals = [(nm, c) for nm, c in goals if nm not in bad]
            if not bad:
                break
            live = [(nm, f) for nm, f in live if nm not in bad]
        if not self.quiet:
            self.invariants_used.append((short(frame.fn.demangled), h, [nm for nm, _ in live]))
            key = 'loop invariant is inductive (%s)' % short(frame.fn.demangled)
            self.obligations[key] = self.obligations.get(key, 0) + len(live) * max(1, len(backs))
        Sf = S.clone()
        for nm, f in live:
            c = f(Sf)
            if c is not None:
                Sf.assume(c if is_b(c) else z3.BoolVal(bool(c)))
        th.after_invariants(self, S0, Sf, M, hv)
        th.at_head(self, Sf, hv)
        lp2 = dict(lp)
        lp2[h] = ['ABS', False, 0, Sf.clone(), th, hv]
        return [(Sf, dict(regs), h, src, 0, lp2)]

    def backedge(self, st, frame, h, rec):
        rec[4].progress(self, rec[3], st, rec[5], short(frame.fn.demangled))

    def peek(self, st, key):
        oid, off, n = key
        o = st.mem.get(oid)
        if o is None or off is None:
            return None
        c = o.cells.get(off)
        return c[1] if c else None

    # ------------------------------------------------------------ intrinsics
    def va_start(self, st, p, va):
        st.gh['va'] = list(va)
        if isinstance(p, P) and not p.t:
            st.gh['va_live'] = st.gh.get('va_live', frozenset()) | {(p.o, p.c)}

    def intrinsic(self, st, name, args, rt):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume',
                            'llvm.va_end', 'llvm.donothing')):
            return [(st, None)]
        if name.startswith('llvm.va_copy'):
            live = st.gh.get('va_live', frozenset())
            d, s = [(a.o, a.c) if isinstance(a, P) and not a.t else None for a in args[:2]]
            st.gh['va_live'] = live | {d} if s in live else live - {d}
            return [(st, None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            out = []
            n = args[2]
            if not isinstance(n, int):
                if self.theory is not None:
                    r = self.theory.memcpy(self, st, args[0], args[1], n)
                    if r is not None:
                        return [(s, None) for s in r]
                for s, k in self.concretize(st, n):
                    out += [(x, None) for x in self.copy(s, args[0], args[1], k)]
                return out
            return [(s, None) for s in self.copy(st, args[0], args[1], n)]
        if name.startswith('llvm.memset'):
            if not isinstance(args[2], int):
                raise Unsupported('memset with symbolic size')
            return [(s, None) for s in self.set(st, args[0], args[1], args[2])]
        if name.startswith('llvm.ubsantrap'):
            kind = {0: 'signed addition overflow', 3: 'integer division overflow',
                    5: 'float cast overflow', 1: 'unreachable reached', 11: 'missing return', 9: 'missing return',
                    12: 'multiplication overflow', 20: 'shift out of range',
                    21: 'signed subtraction overflow'}.get(args[0], 'trap %s' % args[0])
            self.oblige(st, 0, self.oname('undefined behaviour', kind))
            return []
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            n = int(m.group(3))
            a, b = args[0], args[1]
            op = m.group(2)
            r = self.binop(op, ('i', n), a, b)
            if isinstance(a, int) and isinstance(b, int):
                if m.group(1) == 's':
                    h = 1 << (n - 1)
                    sa, sb = (a ^ h) - h, (b ^ h) - h
                    x = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                    o = int(not -h <= x < h)
                else:
                    x = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                    o = int(not 0 <= x < 1 << n)
                return [(st, (r, o))]
            za, zb = bv(a, n), bv(b, n)
            s = m.group(1) == 's'
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(za, zb, s), z3.BVAddNoUnderflow(za, zb) if s else True)
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(za, zb) if s else True, z3.BVSubNoUnderflow(za, zb, s))
            else:
                ok = z3.And(z3.BVMulNoOverflow(za, zb, s), z3.BVMulNoUnderflow(za, zb) if s else True)
            return [(st, (r, fold(z3.Not(ok))))]
        if name.startswith('llvm.is.constant'):
            return [(st, 0)]
        if name.startswith('llvm.expect'):
            return [(st, args[0])]
        m = re.match(r'llvm\.(u|s)(min|max)\.i(\d+)', name)
        if m:
            n = int(m.group(3))
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1) + m.group(2)]
            c = self.icmp(pred, ('i', n), args[0], args[1])
            if isinstance(c, int):
                return [(st, args[0] if c else args[1])]
            return [(st, self.typed_ite(c, args[0], args[1], rt))]
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m:
            n = int(m.group(1))
            c = self.icmp('slt', ('i', n), args[0], 0)
            neg = self.binop('sub', ('i', n), 0, args[0])
            if isinstance(c, int):
                return [(st, neg if c else args[0])]
            return [(st, self.typed_ite(c, neg, args[0], rt))]
        m = re.match(r'llvm\.fabs\.f(\d+)', name)
        if m:
            n = int(m.group(1))
            return [(st, self.binop('and', ('i', n), args[0], (1 << (n - 1)) - 1))]
        m = re.match(r'llvm\.copysign\.f(\d+)', name)
        if m:
            n = int(m.group(1))
            a = self.binop('and', ('i', n), args[0], (1 << (n - 1)) - 1)
            b = self.binop('and', ('i', n), args[1], 1 << (n - 1))
            return [(st, self.binop('or', ('i', n), a, b))]
        m = re.match(r'llvm\.is\.fpclass\.f(\d+)', name)
        if m:
            from . import fp
            return [(st, fp.fpclass(self, int(m.group(1)), args[0], args[1]))]
        m = re.match(r'llvm\.ctpop\.i(\d+)', name)
        if m and isinstance(args[0], int):
            return [(st, bin(args[0]).count('1'))]
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', name)
        raise Unsupported('intrinsic %s' % name)


def mentions(es, prefix):
    """does a constant or function whose name starts with prefix occur in the expressions"""
    seen, todo = set(), [e for e in es if isinstance(e, z3.ExprRef)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.num_args() == 0:
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(prefix):
                return True
        else:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(prefix):
                return True
            todo += e.children()
    return False


def insert(v, idx, x):
    v = list(v)
    v[idx[0]] = x if len(idx) == 1 else insert(v[idx[0]], idx[1:], x)
    return tuple(v)


def short(d):
    """demangled name without the parameter list"""
    depth = 0
    for i, ch in enumerate(d):
        if ch in '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0 and i:
            if d[i:].startswith('(anonymous'):
                continue
            return d[:i]
    return d


class Theory:
    """unit-specific loop abstraction; the default knows nothing"""
    merge_drop = ()

    def __init__(self):
        self.pending = []

    def binop(self, eng, op, n, a, b):
        return None

    def indirect(self, eng, st, callee, args, rt):
        return None

    def memcpy(self, eng, st, d, s, n):
        return None

    def prefer_abstract(self, fn, header):
        return False

    def merge_at(self, fn, header):
        """join the states that meet at this loop header"""
        return False

    def merge_key(self, eng, oid, o):
        return False

    def path_lemma(self, eng, st, sts, c):
        """a condition implied by c, to assume in its place"""
        return c

    def at_merge(self, eng, st):
        pass

    def joined(self, eng, st, sts, cells):
        """cells that took different values on the joined paths"""

    def at_head(self, eng, S, hv):
        pass

    def loop_events(self, eng, S0, S, b):
        raise Unsupported('side effects inside an abstracted loop')

    def havoc(self, eng, S0, S, M, samples):
        """replace each modified cell in S by a fresh value; returns {key: value}"""
        hv = {}
        for key in M:
            oid, off, n = key
            if off is None:
                raise Unsupported('abstract object modified in a loop')
            o = S.wobj(oid)
            c = o.cells.get(off)
            vals = [v for v in samples.get(key, []) if v is not None]
            if c is None:
                # not initialised at entry: dead between iterations
                eng.clear(o, off, n)
                continue
            v = c[1]
            if isinstance(v, int) or is_bv(v):
                if any(not isinstance(x, int) and not is_bv(x) for x in vals):
                    raise Unsupported('pointer variable changes kind in a loop')
                nv = eng.fresh('h', 8 * c[0])
            elif isinstance(v, P):
                if any(not isinstance(x, P) or x.o != v.o for x in vals):
                    raise Unsupported('pointer variable changes object in a loop')
                nv = P(v.o, 0, ((1, eng.fresh('hp', 64)),))
            else:
                raise Unsupported('loop variable kind')
            o.cells[off] = (c[0], nv)
            hv[key] = nv
        return hv

    def candidates(self, eng, S0, S, M, hv):
        return []

    def after_invariants(self, eng, S0, S, M, hv):
        pass

    def prepare_back(self, eng, S0, S, b, M, hv):
        pass

    def progress(self, eng, S, b, hv, fn):
        pass


# ---------------------------------------------------------------- basic contracts
def by_name(rx):
    r = re.compile(rx)
    return lambda dem, name: r.search(dem) is not None or r.search(name) is not None


def c_abort(kind):
    def h(eng, st, args, rt):
        eng.oblige(st, 0, eng.oname('never aborts', kind))
        return []
    return h


def c_nop(eng, st, args, rt):
    return [(st, None)]


def c_new(eng, st, args, rt):
    n = args[0]
    return [(st, st.alloc(n, 'heap'))]


def c_delete(eng, st, args, rt):
    p = args[0]
    if isinstance(p, P):
        if p.o in st.mem:
            del st.mem[p.o]
        else:
            eng.oblige(st, 0, eng.oname('memory safety', 'double free'))
            return []
    return [(st, None)]


def members(p):
    return p.o[6:].split('|') if p.o.startswith('anyof:') else [p.o]


def cstrings(eng, st, p):
    """the concrete strings p may point at, or None"""
    if isinstance(p, P) and isinstance(p.o, str) and p.o.startswith('anyof:'):
        out = []
        for g in members(p):
            eng.global_ptr(st, g[2:])
            out.append(cstring(eng, st, P(g, 0)))
    else:
        out = [cstring(eng, st, p)]
    return None if any(x is None for x in out) else out


def cstring(eng, st, p):
    """concrete NUL-terminated string at p, or None"""
    if not isinstance(p, P) or p.t:
        return None
    o = eng.obj(st, p.o)
    if o is None or o.kind != 'bytes':
        return None
    out = bytearray()
    i = p.c
    while True:
        if isinstance(o.size, int) and i >= o.size:
            return None
        v = eng.load_raw(st, o, i, 1)
        if not isinstance(v, int):
            return None
        if v == 0:
            return bytes(out)
        out.append(v)
        i += 1


def cbytes(eng, st, p, n):
    """concrete bytes, or None"""
    if n == 0:
        return b''
    if not isinstance(p, P) or p.t or not isinstance(n, int):
        return None
    o = eng.obj(st, p.o)
    if o is None or o.kind != 'bytes' or p.c < 0 or (isinstance(o.size, int) and p.c + n > o.size):
        return None
    out = bytearray()
    for i in range(n):
        c = o.cells.get(p.c + i)
        v = c[1] if c and c[0] == 1 else eng.load_raw(st, o, p.c + i, 1)
        if not isinstance(v, int):
            return None
        out.append(v)
    return bytes(out)


def c_strlen(eng, st, args, rt):
    s = cstring(eng, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, len(s))]


ABORTS = [
    (r'^__assert_fail$', 'assertion'),
    (r'^std::__glibcxx_assert_fail', 'library precondition'),
    (r'^std::__throw_|^__cxa_throw', 'exception thrown'),
    (r'^std::terminate|^abort$', 'terminate'),
]


def install_base(eng):
    for rx, kind in ABORTS:
        eng.contracts.append((by_name(rx), c_abort(kind)))
    eng.contracts += [
        (by_name(r'^operator new(\[\])?\(unsigned long\)$'), c_new),
        (by_name(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$'), c_delete),
        (by_name(r'^strlen$'), c_strlen),
        (by_name(r'^__cxa_atexit$'), lambda e, s, a, r: [(s, 0)]),
    ]
