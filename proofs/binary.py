"""Container: context::binary and context::write_dksh against the layout of the DKSH container, for
every code length, every code word, every value of the directives and every place of main."""
import z3

from vcg.engine import *
from vcg.engine import bv
from .tokmodel import TokLayer
from .containers import *

CODE = z3.Function('code_word', z3.BitVecSort(64), z3.BitVecSort(64))
HASMAIN = z3.Bool('has_main')
MAIN = z3.BitVec('main_address', 64)
MAGIC = 0x48534B44


def spec_word(f, n, j):
    """word j of the container for the fields f and n code words; control section of 32 words"""
    a16 = (f['local_mem_size'] + 15) & ~z3.BitVecVal(15, 32)
    sh = (f['shared_mem_size'] + 255) & ~z3.BitVecVal(255, 32)
    code = z3.Extract(31, 0, ((n + 31) & ~z3.BitVecVal(31, 64)) * 8)
    c = lambda x: z3.BitVecVal(x, 32)
    d = [c(MAGIC), c(24), c(256), code, c(24), c(1),
         c(5), z3.Extract(31, 0, MAIN - 8), f['num_gprs'], c(0), c(0), a16 * 32 + 0x800,
         f['block0'], f['block1'], f['block2'], sh, a16, c(0), c(0x800)]
    d += [c(0)] * (64 - len(d))
    e = z3.BitVecVal(0, 64)
    for i in range(32):
        e = z3.If(j == i, z3.Concat(d[2 * i + 1], d[2 * i]), e)
    return z3.If(z3.ULT(j, 32), e, z3.If(z3.ULT(j - 32, n), CODE(j - 32), z3.BitVecVal(0, 64)))


def c_find_main(eng, st, args, rt):
    s = cbytes(eng, st, args[2], args[1])
    if s is None:
        raise Unsupported('label looked up by the container')
    if s != b'main':
        st = eng.oblige(st, 0, 'container: the entry point is the label main')
        return []
    return [(st, (MAIN, bv(HASMAIN, 8)))]


def verify_binary(env, fname, deadline=None):
    lay = env.lay
    eng = Engine(env.mod, 30000)
    eng.deadline = deadline
    eng.theory = VecTheory()
    tl = TokLayer(lay)
    install_base(eng)
    Containers(lay).install(eng)
    eng.contracts += [(by_name(r'^fatal_error\(char const\*, \.\.\.\)$'), tl.c_fatal_plain),
                      (by_name(r'^context::find_label\('), c_find_main)]
    st = State()
    tl.init(eng, st)
    ctx = tl.new_ctx(eng, st, z3.BitVec('u', 64), z3.BitVec('pc', 64))
    O = lambda f: lay['off_context_' + f]
    o = st.wobj(ctx.o)
    f = {}

    def field(name, off, w):
        eng.clear(o, off, w)
        v = z3.BitVec(name, 8 * w)
        o.cells[off] = (w, v)
        f[name] = v
        return v
    for nm in ('num_gprs', 'local_mem_size', 'shared_mem_size'):
        field(nm, O(nm), 4)
        st.assume(f[nm] >= 0)        # directives take non-negative integers (directive unit)
    st.assume(z3.ULE(f['local_mem_size'], 0xFFFFFF))
    for i in range(3):
        st.assume(field('block%d' % i, O('block_dimensions') + 4 * i, 4) >= 0)
    ty, on, dk = field('type', O('type'), 4), field('type set', O('type') + 4, 1), field('is_dksh', O('is_dksh'), 1)
    st.assume(z3.And(z3.ULE(ty, 5), z3.ULE(on, 1), z3.ULE(dk, 1)))
    # set by the constructor, never by a directive (constructor and directive units)
    for nm, off, w in (('entrypoint', O('entrypoint') + 32, 1), ('second_entrypoint', O('second_entrypoint') + 32, 1),
                       ('second_num_gprs', O('second_num_gprs'), 4), ('num_barriers', O('num_barriers'), 4),
                       ('early_fragment_tests', O('early_fragment_tests'), 1), ('post_depth_coverage', O('post_depth_coverage'), 1),
                       ('persample_invocation', O('persample_invocation'), 1)):
        eng.clear(o, off, w)
        o.cells[off] = (w, 0)
    n = z3.BitVec('n', 64)
    st.assume(z3.ULE(n, (1 << 29) - 64))      # the code section stays below 4 GiB
    st.assume(z3.Implies(HASMAIN, z3.And(MAIN >= 8, MAIN < 1 << 31, MAIN & 7 == 0)))
    code = new_elems(st, 'code', 8, n, lambda i: CODE(i))
    ret = st.alloc(24, 'result')
    st0 = st.clone()
    outs = eng.call(st, Fn(fname), [ret, ctx, code, n], ('v',))
    nm = lambda x: 'container: ' + x
    compute = z3.And(on == 1, ty == 5)
    dksh = dk == 1
    ok = z3.If(dksh, z3.And(compute, HASMAIN, MAIN & 31 == 8), z3.Or(on == 0, compute))
    for kind, z, info in eng.terminals:
        eng.oblige(z, z3.Not(ok), nm('refused only without a main at the start of a group, or for another program type'))
    J = z3.BitVec('J', 64)
    for z, _ in outs:
        z = eng.oblige(z, ok, nm('written only with a main at the start of a group, for compute programs'))
        if z is None:
            continue
        a, b = eng.split(z, dksh)
        for y, isdk in ((a, True), (b, False)):
            if y is None:
                continue
            oid, m = vec_of(eng, y, ret)
            end = y.mem[ret.o].cells.get(8)
            L = b64(m.n)
            want = ((n + 31) & ~z3.BitVecVal(31, 64)) + 32 if isdk else n
            y = eng.oblige(y, z3.And(L == want, bv(pdiff(end[1], P(oid, 0)), 64) == L * 8),
                           nm('256 bytes and the code padded to 256 bytes' if isdk else 'without .dksh the length of the code'))
            if y is None:
                continue
            y = eng.oblige(y, z3.Implies(z3.ULT(J, L), m.elem(J) == (spec_word(f, n, J) if isdk else CODE(J))),
                           nm('every word of the control section, the code and the padding' if isdk else 'without .dksh the code itself'))
            if y is not None:
                from .option import split_frame
                split_frame(eng, tl, st0, y, ctx, nm('context frame'), [])
    if not outs:
        eng.failures.append(Obligation(nm('terminates'), 'unknown'))
    return eng
