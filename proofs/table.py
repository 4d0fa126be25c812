"""The instruction table, obtained by executing the program's own static initialisers in the
verifier (concretely), so the rows are those the running program has."""
import z3

from vcg.engine import *
from spec import isa, operands


class TRow:
    __slots__ = ('opcode', 'flags', 'mnemonic', 'fns', 'ptr')

    def __repr__(self):
        return '%016X %s %s' % (self.opcode, self.mnemonic, len(self.fns))


def ctors(mod):
    g = mod.get_global('llvm.global_ctors') if 'llvm.global_ctors' in mod.rawglobals else None
    if g is None:
        return []
    out = []
    for _, e in g.init[1]:
        out.append((e[1][0][1][1], e[1][1][1][1]))
    return [f for _, f in sorted(out, key=lambda x: x[0])]


def run_ctors(mod):
    """-> State after static initialisation"""
    eng = Engine(mod, 5000)
    install_base(eng)
    st = State()
    for f in ctors(mod):
        outs = eng.call(st, Fn(f), [], ('v',))
        if len(outs) != 1 or eng.failures:
            raise Unsupported('static initialisation: %s' % [(x.name, x.status) for x in eng.failures][:3])
        st = outs[0][0]
    return eng, st


def find_table(mod, eng, st):
    """global array whose element type has an i64, a char array, an int and a vector"""
    best = None
    for name in list(mod.rawglobals):
        if not ('g:' + name) in st.mem:
            continue
        ty = mod.get_global(name).ty
        if ty[0] != 'a' or ty[1] < 2:
            continue
        fields = flat(mod, ty[2], 0)
        kinds = [k for k, o, n in fields]
        if 'chars' in kinds and kinds.count('p') == 3:
            if best is None or ty[1] > best[1]:
                best = (name, ty[1], mod.sizeof(ty[2]), fields)
    return best


def flat(mod, ty, off):
    if ty[0] == 'a':
        if mod.sizeof(ty[2]) == 1:
            return [('chars', off, ty[1])]
        out = []
        es = mod.sizeof(ty[2])
        for i in range(ty[1]):
            out += flat(mod, ty[2], off + i * es)
        return out
    if ty[0] == 'p':
        return [('p', off, 8)]
    if ty[0] in ('i', 'f'):
        return [('i%d' % ty[1], off, mod.sizeof(ty))]
    out = []
    for i, t in enumerate(ty[1]):
        out += flat(mod, t, off + mod.field_off(ty, i))
    return out


def extract(mod):
    eng, st = run_ctors(mod)
    t = find_table(mod, eng, st)
    if t is None:
        raise Unsupported('no instruction table')
    name, n, es, fields = t
    o64 = next(o for k, o, _ in fields if k == 'i64')
    oc, nc = next((o, k2) for k, o, k2 in fields if k == 'chars')
    ofl = next(o for k, o, _ in fields if k == 'i32')
    op = [o for k, o, _ in fields if k == 'p']
    rows = []
    g = P('g:' + name, 0)

    def ld(p, ty):
        r = eng.load(st, p, ty)
        if len(r) != 1:
            raise Unsupported('table')
        return r[0][1]
    for i in range(n):
        b = i * es
        r = TRow()
        r.ptr = b
        r.opcode = ld(P(g.o, b + o64), ('i', 64))
        mn = bytearray()
        for j in range(nc):
            c = ld(P(g.o, b + oc + j), ('i', 8))
            if c == 0:
                break
            mn.append(c)
        else:
            raise Unsupported('mnemonic without terminator')
        r.mnemonic = mn.decode('latin1')
        r.flags = ld(P(g.o, b + ofl), ('i', 32))
        s, e = ld(P(g.o, b + op[0]), ('p',)), ld(P(g.o, b + op[1]), ('p',))
        r.fns = []
        if isinstance(s, P):
            k = s.c
            while k != e.c:
                f = ld(P(s.o, k), ('p',))
                if not isinstance(f, Fn):
                    raise Unsupported('operand is not a function')
                r.fns.append(f.name)
                k += 8
        rows.append(r)
    return eng, st, name, rows, (es, o64, oc, ofl, op)


def short_key(dem):
    """operand function name without namespace noise: 'error pred<44, false>(...)' -> 'pred<44, false>'"""
    d = dem[:-len('(context&, token&, opcode&)')] if dem.endswith('(context&, token&, opcode&)') else dem
    return d[6:] if d.startswith('error ') else d


def align(mod, rows, gold):
    """pairs rows of the program with golden forms, mnemonic by mnemonic.
    -> (pairs {(fn, key)}, [(mnemonic, why)] mnemonics whose shape differs, aligned {mn: [(TRow, Row)]})"""
    gm, rm = {}, {}
    for g in gold:
        gm.setdefault(g.mnemonic, []).append(g)
    for r in rows:
        rm.setdefault(r.mnemonic, []).append(r)
    pairs, odd, al = {}, [], {}
    for mn in sorted(set(gm) | set(rm)):
        a, b = rm.get(mn, []), gm.get(mn, [])
        if len(a) != len(b):
            odd.append((mn, '%d forms instead of %d' % (len(a), len(b))))
            continue
        bad = [i for i in range(len(a)) if len(a[i].fns) != len(b[i].keys)]
        if bad:
            odd.append((mn, 'form %d has %d operands instead of %d' %
                        (bad[0], len(a[bad[0]].fns), len(b[bad[0]].keys))))
            continue
        al[mn] = list(zip(a, b))
        for x, y in al[mn]:
            for f, k in zip(x.fns, y.keys):
                pairs.setdefault((f, k), []).append(y.n)
    return pairs, odd, al
