"""The proof units: which functions, against which contracts, for which properties."""
import re
import time

from vcg import common
from vcg.engine import Unsupported, short, mentions
from spec import isa
from spec.operands import make
from . import table, opnd, fpunit, pool, sched, form, lexer, option, layout, binary, labels, diag, cmdline

SAFETY = r'semicolon|memory safety|undefined behaviour|never aborts|token kind|returns to its caller|terminates|returns a result'
OPERAND = (r': (rejects only|accepts only|instruction bits|reuse flags|control field|consumes exactly|'
           r'current token is)')
DIAG = r'diagnostic'


class Unit:
    def __init__(self, name, fn, props, keys=(), mnemonics=(), precise=True, cost=1, seconds=150, group=''):
        self.name = name
        self.fn = fn
        self.props = props        # {property: regex of obligation names that carry it ('' = all)}
        self.keys = list(keys)
        self.mnemonics = list(mnemonics)
        self.precise = precise    # a refuted obligation is a counterexample of the contract
        self.cost = cost
        self.seconds = seconds
        self.group = group


class Env:
    """the extracted program"""

    def __init__(self, tmp, tier='quick'):
        self.tmp = tmp
        self.tier = tier
        self.notes = []
        self.mod = common.build_module(tmp)
        self.lay = common.layout(tmp)
        self.rows = self.pairs = None
        self.odd = []
        self.al = {}
        self.gold = isa.load()
        try:
            self.ceng, self.cst, self.tname, self.rows, self.trow = table.extract(self.mod)
            self.pairs, self.odd, self.al = table.align(self.mod, self.rows, self.gold)
        except Unsupported as x:
            self.notes.append('instruction table not extracted: %s' % x)

        fs = self.find(r'^parse_instruction\(context&, opcode&\)$')
        self.insn_fn = fs[0] if len(fs) == 1 else None
        self.sched_fn = self.find_sched()

    def find_sched(self):
        """the annotation parser: the function of an operand's type that instructions are parsed
        with and that is no operand of the table"""
        if self.insn_fn is None or self.pairs is None:
            return None
        ops = {f for f, _ in self.pairs} | {f for r in self.rows for f in r.fns}
        seen, todo, out = set(), [self.insn_fn], set()
        while todo:
            n = todo.pop()
            n = self.mod.aliases.get(n, n)
            fn = self.mod.functions.get(n)
            if fn is None or n in seen or n in ops:
                continue
            seen.add(n)
            d = fn.demangled
            if d.endswith('(context&, token&, opcode&)') and len(fn.params) == 4 and fn.loops():
                out.add(n)
                continue
            if short(d).startswith('std::'):
                continue
            fn.parse()
            for b in fn._order:
                for ins in fn.block(b):
                    if ins[0] in ('call', 'invoke') and ins[3][0] == 'g':
                        todo.append(ins[3][1])
        return out.pop() if len(out) == 1 else None

    def find(self, rx):
        r = re.compile(rx)
        return [n for n, f in self.mod.functions.items() if r.search(f.demangled)]


def int_keys():
    from replay import families as F
    sites, flt = F.int_sites()
    return {row.keys[k] for row, k in sites}


def operand_units(env):
    out = []
    if env.pairs is None:
        return out
    ik = int_keys()
    for (f, k), where in sorted(env.pairs.items(), key=lambda x: x[0][1]):
        sp = make(k)
        props = {'C01': OPERAND, 'C02': SAFETY, 'C13': DIAG, 'C09': r'context frame|control field'}
        if k in ik and not k.startswith(('fimm', 'dimm', 'label')):
            props['C03'] = OPERAND
        if k.startswith(('fimm', 'dimm')):
            props['C04'] = OPERAND
        if k == 'label':
            props['C08'] = OPERAND
        if sp.rmask or 'gpr' in k:
            props['C07'] = OPERAND

        def go(f=f, k=k):
            return pool.Report(k).take(opnd.verify_operand(env.mod, env.lay, f, k))
        out.append(Unit('operand ' + k, go, props, keys=[k], cost=40 if k == 's2r' else 10 if 'cbuf' in k or 'address' in k else 1,
                        precise=not k.startswith(('fimm', 'dimm'))))
    return out


def fp_units(env):
    out = [Unit('floating-point lemmas', fpunit.verify_lemmas, {'C04': ''}, precise=False, cost=20)]
    for f in env.find(r'\bfp32_to_fp16<\(std::float_round_style\)1>\(float\)$'):
        out.append(Unit('half conversion', lambda f=f: fpunit.verify_half(env.mod, f), {'C04': '', 'C02': SAFETY},
                        keys=[k for k in all_keys() if k.startswith('fimm16') or k.startswith('fimm9')]))
    return out


def all_keys():
    return sorted({k for r in isa.load() for k in r.keys})


def with_exact(name, prove, exact, seconds=90, esec=None):
    """prove(): the unbounded proof, over abstractions of loops; when it does not go through,
    exact(): the same obligations on a stated finite part of the inputs, where a refutation is
    a counterexample of the contract.  Neither decides -> undecided, reported as such."""
    why = None
    try:
        r = pool.Report(name).take(prove(deadline=time.time() + seconds))
        bad = [f for f in r.failures if f[1] == 'refuted'] or r.failures
        if not bad:
            return r
        why = '; '.join('%s (%s)' % (f[0], f[1]) for f in bad[:3])
    except Unsupported as x:
        why = str(x)
    r2 = pool.Report(name)
    try:
        e = exact(deadline=time.time() + (esec or seconds / 2))
        for f in e.failures:
            if f.model is not None:
                r2.texts += [t for t in pool.model_texts(f.model) if t not in r2.texts]
        # values a contract leaves open or a join forgot are named left...: no counterexample
        e.failures = [f for f in e.failures if f.status == 'refuted' and
                      not mentions([f.claim] + [c for c, ax in f.state.asm if not ax], ('left', 'strtof'))]
        r2.take(e)
        if r2.failures:
            r2.invariants = []
            r2.bounded = None
            r2.status = 'refuted'
            return r2
    except Unsupported as x:
        why += '; ' + str(x)
    r2.failures = []
    r2.status, r2.why = 'unsupported', why
    return r2


def sched_units(env):
    out = []
    for f in [env.sched_fn] if env.sched_fn else []:
        def prove(f=f, **k):
            return sched.verify_sched(env.mod, env.lay, f, **k)

        def exact(f=f, **k):
            return sched.verify_sched(env.mod, env.lay, f, 2, **k)
        out.append(Unit('annotations', lambda prove=prove, exact=exact: with_exact('annotations', prove, exact),
                        {'C05': '', 'C02': SAFETY, 'C13': DIAG, 'C09': 'frame'}, cost=60))
    return out


def lexer_units(env):
    out = []
    for f in env.find(r'^context::tokenize\(\)$')[:1]:
        def prove(f=f, **k):
            return lexer.verify_tokenize(env, f, **k)

        def exact(f=f, **k):
            return lexer.verify_tokenize(env, f, 3, **k)
        out.append(Unit('tokenizer', lambda prove=prove, exact=exact: with_exact('tokenizer', prove, exact, 360, 80),
                        {'C10': '', 'C02': SAFETY, 'C13': DIAG, 'C09': 'frame', 'C03': 'integer value|accepts only|refuses only', 'C04': 'float value'},
                        cost=1000, seconds=480))
    return out


def option_units(env):
    return [Unit('directives', lambda f=f: pool.Report('directives').take(option.verify_option(env, f)),
                 {'C11': '', 'C02': SAFETY, 'C13': DIAG, 'C09': 'frame'}, cost=20)
            for f in env.find(r'^context::parse_option\(token&\)$')[:1]]


def label_units(env):
    out = []
    for f in env.find(r'^context::context\(char const\*, char const\*\)$')[:1]:
        out.append(Unit('labels', lambda f=f: with_exact('labels', lambda **k: labels.verify_labels(env, f, **k),
                                                         lambda **k: labels.exact_labels(env, f, **k), 240, 90),
                        {'C08': '', 'C02': SAFETY, 'C09': 'initial state|terminates', 'C11': 'initial state', 'C12': 'initial state'}, cost=500, seconds=340))
    for f in env.find(r'^context::find_label\(')[:1]:
        out.append(Unit('label lookup', lambda f=f: pool.Report('label lookup').take(labels.verify_find(env, f)),
                        {'C08': '', 'C02': SAFETY, 'C09': 'frame', 'C12': ''}, cost=2))
    return out


def output_units(env):
    out = []
    for f in env.find(r'^context::binary\(')[:1]:
        out.append(Unit('container', lambda f=f: pool.Report('container').take(binary.verify_binary(env, f)),
                        {'C12': '', 'C02': SAFETY, 'C09': 'frame'}, cost=5))
    for f in env.find(r'^nxas::assemble\(')[:1]:
        out.append(Unit('output layout', lambda f=f: with_exact('output layout', lambda **k: layout.verify_assemble(env, f, **k),
                                                                lambda **k: layout.exact_assemble(env, f, **k)),
                        {'C06': '', 'C02': SAFETY, 'C09': 'layout:', 'C13': 'file name'}, cost=40))
    return out


def program_units(env):
    out = []
    for name, rx, go, extra in (('fatal error at a token', r'^fatal_error\(token const&, char const\*, \.\.\.\)$', diag.verify_fatal, {}),
                                ('fatal error', r'^fatal_error\(char const\*, \.\.\.\)$', diag.verify_fatal_plain, {'C14': ''}),
                                ('error message', r'^fail\(token const&, char const\*, \.\.\.\)$', diag.verify_fail, {}),
                                ('error raised', r'^error::raise\(\)$', diag.verify_raise, {})):
        for f in env.find(rx)[:1]:
            p = {'C13': '', 'C02': SAFETY}
            p.update(extra)
            out.append(Unit(name, lambda f=f, go=go, name=name: pool.Report(name).take(go(env, f)), p, cost=2))
    for f in env.find(r'^main$')[:1]:
        out.append(Unit('command line', lambda f=f: with_exact('command line', lambda **k: cmdline.verify_main(env, f, **k), lambda **k: cmdline.verify_main(env, f, 6, **k)),
                        {'C14': '', 'C13': 'output is opened only|file name', 'C02': SAFETY}, cost=10))
    return out


FORM = r'instruction: |no bit is claimed|no reuse flag'


def form_units(env):
    out = []
    if env.pairs is None:
        return out
    f = env.insn_fn
    if f is None:
        return out
    props = {'C01': FORM, 'C02': SAFETY + '|is claimed twice', 'C09': 'context frame|consumes exactly|address of|control field', 'C13': DIAG + '|rejects only'}

    def unit(name, prove, mns, extra, cost):
        p = dict(props)
        p.update(extra)

        def ex(**k):
            return prove(plain=True, **k)
        out.append(Unit(name, lambda: with_exact(name, prove, ex), p, mnemonics=mns, cost=cost, group='forms'))
    unit('instruction head', lambda **k: form.verify_head(env, f, **k), [], {'C07': FORM, 'C11': 'directive'}, 30)
    for mn, rows in env.al.items():
        ks = {k for _, g in rows for k in g.keys}
        ex = {'C07': FORM}
        if 'label' in ks:
            ex['C08'] = 'address of|instruction word'
        for g in (False, True):
            unit('%s%s' % ('guarded ' if g else '', mn),
                 lambda mn=mn, g=g, **k: form.verify_mnemonic(env, f, mn, g, **k), [mn], ex, 5 + len(rows))
    return out


def all_units(env):
    graph = [Unit('call graph', lambda: call_graph(env), {'C02': ''}, precise=False)]
    return graph + lexer_units(env) + option_units(env) + label_units(env) + output_units(env) + program_units(env) + operand_units(env) + fp_units(env) + sched_units(env) + form_units(env)


def call_graph(env):
    """no function of the program calls itself, directly or through others: contracts are only ever
    assumed of functions whose own proof does not rest on the caller's, and the stack is bounded"""
    rep = pool.Report('call graph')
    entry = env.find(r'^main$') + sorted({f for r in env.rows or () for f in r.fns})
    color, cyc, n = {}, [], 0
    indirect = set()

    def callees(name):
        fn = env.mod.functions[name]
        fn.parse()
        out = set()
        for b in fn._order:
            for ins in fn.block(b):
                if ins[0] in ('call', 'invoke'):
                    if ins[3][0] == 'g':
                        c = env.mod.aliases.get(ins[3][1], ins[3][1])
                        if c in env.mod.functions:
                            out.add(c)
                    else:
                        indirect.add(name)
        return out
    ops = {f for r in env.rows or () for f in r.fns}
    for e in entry:
        stack = [(e, None)]
        while stack:
            name, it = stack[-1]
            if it is None:
                if color.get(name):
                    stack.pop()
                    continue
                color[name] = 1
                cs = callees(name)
                if name in indirect and not short(env.mod.functions[name].demangled).startswith('std::'):
                    cs = cs | ops
                it = iter(sorted(cs))
                stack[-1] = (name, it)
            for c in it:
                if color.get(c) == 1:
                    if not short(env.mod.functions[c].demangled).startswith('std::'):
                        cyc.append(c)
                elif not color.get(c):
                    stack.append((c, None))
                    break
            else:
                color[name] = 2
                n += 1
                stack.pop()
    rep.functions = {env.mod.functions[c].demangled for c in color if not short(env.mod.functions[c].demangled).startswith('std::')}
    if cyc:
        rep.status, rep.why = 'unsupported', 'recursion through ' + ', '.join(sorted({env.mod.functions[c].demangled for c in cyc}))[:300]
    else:
        rep.obligations['terminates: no recursion'] = n
    return rep


# the units every run has to have, and the properties that rest on them
EXPECT = {
    'tokenizer': ('C02', 'C03', 'C04', 'C09', 'C10', 'C13'),
    'directives': ('C02', 'C09', 'C11', 'C13'),
    'labels': ('C02', 'C08', 'C09', 'C11', 'C12'),
    'label lookup': ('C02', 'C08', 'C09', 'C12'),
    'container': ('C02', 'C09', 'C12'),
    'output layout': ('C02', 'C06', 'C09', 'C13'),
    'annotations': ('C02', 'C05', 'C09', 'C13'),
    'instruction head': ('C01', 'C02', 'C07', 'C09', 'C11', 'C13'),
    'half conversion': ('C02', 'C04'),
    'fatal error at a token': ('C02', 'C13'),
    'fatal error': ('C02', 'C13', 'C14'),
    'error message': ('C02', 'C13'),
    'error raised': ('C02', 'C13'),
    'command line': ('C02', 'C13', 'C14'),
}


def missing(prop, env, units):
    """parts of the property no unit of this run covers"""
    out = ['mnemonic %s: %s' % (m, w) for m, w in env.odd] if prop in ('C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C13') else []
    have = {u.name for u in units}
    out += ['%s: its function was not found' % n for n, ps in EXPECT.items() if prop in ps and n not in have]
    if prop in ('C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C13'):
        gone = sorted({r.mnemonic for r in env.gold} - set(env.al) - {m for m, _ in env.odd})
        out += ['mnemonic %s: not in the table' % m for m in gone]
    return out
