"""Families of generated programs and the judgement of what the real code did with them.

A case is (text, tag); the oracle (spec.oracle) says what must happen; diffs() lists how the
real outcome differs; a property only claims the differences its statement is about.
"""
import glob
import itertools
import os
import random
import re

from spec import oracle
from spec.ops import M64
from spec.operands import make, IMM, FLT, REG, PRED
from spec.tokens import Reject
from .gen import (Rng, Tape, Cfg, GTok, gen_form, form_text, render, spell, INTS, SMALL, FLOATS)

PAD = oracle.PAD


# ---------------------------------------------------------------- judgement
def diffs(e, a):
    """differences between the expected result e and the actual outcome a, as a dict"""
    d = {}
    if a.status not in ('ok', 'reject'):
        d['crash'] = a.status + ': ' + a.plain.strip()[-300:]
        return d
    if e.ok and a.status == 'reject':
        d['rejects'] = a.plain.strip()
        return d
    if not e.ok and a.status == 'ok':
        d['accepts'] = ['%016X' % w for w in a.words[:8]]
        return d
    if not e.ok:
        if a.pos != e.pos:
            d['pos'] = (e.pos, a.pos, a.plain.strip())
        if a.plain.count('\n') != 1 or not a.plain.endswith('\n') or 'error: ' not in a.plain:
            d['msg'] = a.plain
        if a.words:
            d['output'] = len(a.words)
        return d
    if len(e.words) != len(a.words):
        d['count'] = (len(e.words), len(a.words))
        return d
    base = 32 if e.props.dksh else 0
    n = len(e.insns)
    ncode = 4 * ((n + 2) // 3)
    for i, (x, y) in enumerate(zip(e.words, a.words)):
        if x == y:
            continue
        if i < base:
            d.setdefault('header', []).append((i, '%016X' % x, '%016X' % y))
            continue
        j = i - base
        if j >= ncode:
            d.setdefault('padding', []).append((i, '%016X' % x, '%016X' % y))
            continue
        g, k = divmod(j, 4)
        if k == 0:
            z = x ^ y
            for lane in range(3):
                b = z >> 21 * lane & 0x1FFFFF
                if not b:
                    continue
                m = 3 * g + lane
                if m >= n:
                    d['padlane'] = (i, '%016X' % x, '%016X' % y)
                else:
                    if b & 0x1FFFF:
                        d.setdefault('ctl', []).append((m, b & 0x1FFFF, '%016X' % x, '%016X' % y))
                    if b >> 17:
                        d.setdefault('reuse', []).append((m, b >> 17, '%016X' % x, '%016X' % y))
            if z >> 63:
                d['padlane'] = (i, '%016X' % x, '%016X' % y)
        else:
            m = 3 * g + k - 1
            if m >= n:
                d['padword'] = (i, '%016X' % x, '%016X' % y)
            else:
                d.setdefault('word', []).append((m, x ^ y, '%016X' % x, '%016X' % y))
    return d


VOCAB = None


def vocab():
    """every word and modifier the operand specifications mention"""
    global VOCAB
    if VOCAB is None:
        VOCAB = set()

        class Collect:
            def flip(self, p):
                return self.r.random() < 0.5

            def pick(self, xs):
                return self.r.choice(xs)
        from .gen import GenS
        orig_s, orig_t = GenS.s, GenS.table

        class C(GenS):
            __slots__ = ()

            def _new(self, **k):
                s = C(self.toks, self.i, self.V, self.R, self.pc, self.labels, self.cfg)
                for a, b in k.items():
                    setattr(s, a, b)
                return s

            def s(self, string):
                VOCAB.add(string)
                return orig_s(self, string)

            def table(self, entries):
                VOCAB.update(x for x in entries if x)
                return orig_t(self, entries)
        cfg = Cfg(Rng(7))
        keys = sorted({k for r in oracle.all_forms() for k in r.keys})
        for k in keys:
            for _ in range(12):
                try:
                    make(k).f(C([], 0, 0, 0, 8, {}, cfg))
                except Reject:
                    pass
        VOCAB = sorted(VOCAB)
    return VOCAB


CODE = None


def code_words():
    """every string literal of the code that could be a word of the language"""
    global CODE
    if CODE is None:
        from . import run
        out = set()
        for f in sorted(glob.glob(run.REPO + '/src/**/*', recursive=True)) + sorted(glob.glob(run.REPO + '/include/**/*', recursive=True)):
            if os.path.isfile(f):
                txt = open(f, encoding='latin-1').read()
                for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"', txt):
                    if re.fullmatch(r'[A-Za-z0-9_.$@:]{1,40}', m):
                        out.add(m)
        CODE = sorted(out - set(vocab()) - {r.mnemonic for r in rows()})
    return CODE


def rows():
    return oracle.all_forms()


def part(xs, i, n):
    return [x for k, x in enumerate(xs) if k % n == i]


# ---------------------------------------------------------------- families
def f_forms(seed, n, i, parts):
    """accepted instructions of every form"""
    rng = Rng(seed * 1000 + i)
    cfg = Cfg(rng, p=0.65)
    for row in part(rows(), i, parts):
        for _ in range(n):
            cfg.p = rng.pick([0.3, 0.6, 0.8])
            cfg.regs = rng.pick([[0, 1, 2, 3, 255], list(range(256)), [254, 255, 128, 127]])
            t = gen_form(row, cfg, tries=400)
            if t is not None:
                yield form_text(row, t, rng) + ';\n', row.n


def f_enum(seed, cap, i, parts):
    """every alternative of every operand kind, in an instruction that has it"""
    rng = Rng(seed * 1000 + i)
    where = {}
    for row in rows():
        for k, key in enumerate(row.keys):
            where.setdefault(key, []).append((row, k))
    for key in part(sorted(where), i, parts):
        sites = where[key]
        tape = Tape()
        fc = Cfg(tape, ints=[0, 1, 3, 4, 15, 16, 31, 32, -1, -4, 1023, 32764, 32768, -32768, -32772, (1 << 20) - 1, 1 << 20,
                             -(1 << 19), (1 << 19), (1 << 23) - 1, 1 << 23, (1 << 24) - 1, -(1 << 23), 1 << 32],
                 floats=FLOATS, regs=[0, 7, 254, 255])
        cnt = 0
        while cnt < cap:
            row, k = sites[cnt % len(sites)]
            cfg = Cfg(rng, p=rng.pick([0.2, 0.6]), regs=rng.pick([[0, 1, 2, 255], list(range(256))]))
            t = None
            for _ in range(3):
                t = gen_form(row, cfg, focus=k, focus_cfg=fc, strict=False, tries=300)
                tape.i = 0
                if t is not None:
                    break
            if t is not None:
                yield form_text(row, t, rng) + ';\n', key
            cnt += 1
            if not tape.next():
                # enumeration done: visit the remaining sites of this operand with random choices
                for row, k in sites[cnt % len(sites):][:10]:
                    for _ in range(4):
                        t = gen_form(row, cfg, focus=k, focus_cfg=Cfg(rng, ints=INTS, p=0.5), strict=False, tries=300)
                        if t is not None:
                            yield form_text(row, t, rng) + ';\n', key
                break


def mutate(toks, rng):
    r = rng.r
    toks = [spell(t, rng) for t in toks]
    for _ in range(r.choice([1, 1, 1, 2])):
        if not toks:
            return toks
        k = r.randrange(len(toks))
        m = r.randrange(7)
        if m == 0:
            del toks[k]
        elif m == 1:
            toks.insert(k, r.choice(vocab()))
        elif m == 2:
            toks.insert(k, toks[k])
        elif m == 3 and k + 1 < len(toks):
            toks[k], toks[k + 1] = toks[k + 1], toks[k]
        elif m == 4:
            toks[k] = r.choice(vocab())
        elif m == 5:
            toks[k] = r.choice(['R0', 'RZ', 'R7.reuse', 'P0', '!P3', 'PT', '1', '-1', '0', '1.5', '-', '+', '~', '|', '[', ']', ',', ';',
                                '@', 'c', 'a', 'INF', 'QNAN', '-INF', '.reuse', '.', '..', '5000000000', '0x10', 'main', '@WAIT'])
        else:
            toks.insert(k, r.choice(['-', '+', '~', '|', ',', '.reuse', '[', ']', '.', '@', ';', '1']))
    return toks


def join(toks):
    out = ''
    for s in toks:
        if out and not (s.startswith('.') or s in (',', ']')) and not out.endswith('['):
            out += ' '
        out += s
    return out


def near(row, t, rng):
    """one register differing by one bit, one word misspelt by one character"""
    for j, x in enumerate(t):
        if x.type == REG and x.src is not None and x.src < 255:
            for b in range(8):
                u = [y.copy() for y in t]
                u[j].src = x.src ^ 1 << b
                if u[j].src < 255:
                    yield form_text(row, u, rng) + ';\n', row.n
    toks = [row.mnemonic] + [spell(x, rng) for x in t]
    for j, w in enumerate(toks):
        if j == 0 or re.fullmatch(r'\.?[A-Z_][A-Z0-9_]{3,}', w):
            for v in (w[:-1], w + 'A', w + w[-1], w[:-1] + ('X' if w[-1] != 'X' else 'Y'), w.lower(), w[:-1] + w[-1].lower()):
                yield join(toks[:j] + [v] + toks[j + 1:]) + ';\n', row.n


def f_mutate(seed, n, i, parts):
    """instructions with wrong, missing, repeated or foreign tokens"""
    rng = Rng(seed * 1000 + 500 + i)
    cfg = Cfg(rng, p=0.5)
    for row in part(rows(), i, parts):
        t = gen_form(row, Cfg(rng, p=0.6), tries=400)
        if t is not None:
            yield from near(row, t, rng)
        for _ in range(n):
            t = gen_form(row, cfg, tries=400)
            if t is None:
                continue
            s = join([row.mnemonic] + mutate(t, rng))
            if rng.flip(0.15):
                s = '@%sP%d ' % (rng.pick(['', '!']), rng.pick(range(7))) + s
            yield s + rng.pick([';\n', ';\n', ' @WAIT 3;\n', ' @Y @WB 0;\n', '\n']), row.n


def int_sites():
    """(row, operand index) pairs whose operand takes an integer"""
    from .gen import GenS
    out = []
    seen = {}
    for row in rows():
        for k, key in enumerate(row.keys):
            if key not in seen:
                hit = set()
                for s in range(12):
                    toks = []
                    try:
                        make(key).f(GenS(toks, 0, 0, 0, 8, {'L': 8}, Cfg(Rng(s))))
                    except Reject:
                        pass
                    hit.update(t.type for t in toks)
                seen[key] = hit
            if IMM in seen[key]:
                out.append((row, k))
    return out, {k for k, h in seen.items() if FLT in h}


def f_int(seed, n, i, parts):
    """integer operands at every power of two, both signs; tag = (group, base?, key)"""
    rng = Rng(seed * 1000 + 100 + i)
    cfg = Cfg(rng, p=0.5)
    sites, flt = int_sites()
    bykey = {}
    for row, k in sites:
        bykey.setdefault(row.keys[k], []).append((row, k))
    g = i * 1000000
    for key in part(sorted(bykey), i, parts):
        if key in flt and not key.startswith('label'):
            vals = INTS[::3]
        else:
            vals = INTS
        for (row, k) in bykey[key][:n]:
            # several shapes of the operand
            for shape in range(3):
                c2 = Cfg(rng, ints=[0, 4, 8], p=rng.pick([0.4, 0.6, 0.9]), regs=[[255], [1], [0, 255, 254]][shape])
                t = gen_form(row, cfg, focus=k, focus_cfg=c2, tries=400)
                if t is None:
                    continue
                # the integers that belong to this operand
                idx = []
                toks0 = gen_prefix(row, k, t)
                for j in toks0:
                    if t[j].type == IMM:
                        idx.append(j)
                for j in idx:
                    g += 1
                    yield form_text(row, t, rng) + ';\n', (g, True, key)
                    vs = list(vals) if shape < 2 else rng.r.sample(vals, min(len(vals), 60))
                    for v in vs:
                        u = [x.copy() for x in t]
                        u[j].value = v
                        yield form_text(row, u, rng) + ';\n', (g, False, key)
                    for lit in ('9223372036854775808', '18446744073709551616', '-9223372036854775809', '99999999999999999999999',
                                '0x10000000000000000', '0xFFFFFFFFFFFFFFFF', '01777777777777777777777'):
                        s = [spell(x, rng) for x in t]
                        s[j] = lit
                        yield join([row.mnemonic] + s) + ';\n', (g, False, key)


def gen_prefix(row, k, toks):
    """indices of the tokens consumed by operand k (replaying the specification)"""
    class L:
        def get(self, i):
            if i < len(toks):
                t = toks[i]
                o = oracle.Tok(t.type or 13, 0, i)
                o.text = t.text
                o.value = {REG: t.src, FLT: None}.get(t.type, t.value)
                if t.type == FLT:
                    o.value = oracle.c_float(t.text or '1.5')[0]
                if o.value is None:
                    o.value = 0
                o.neg = t.neg
                return o
            return oracle.Tok(13, 0, i)
    S = oracle.ConS(L(), 0, row.opcode | 7 << 16, 0, 8, {})
    try:
        for n, sp in enumerate(row.specs):
            b = S.i
            S = sp.f(S)
            if n == k:
                return list(range(b, S.i))
    except Reject:
        pass
    return []


def f_float(seed, n, i, parts):
    rng = Rng(seed * 1000 + 200 + i)
    cfg = Cfg(rng, p=0.5)
    keys = {}
    for row in rows():
        for k, key in enumerate(row.keys):
            if key.startswith(('fimm', 'dimm')):
                keys.setdefault(key, []).append((row, k))
    g = i * 1000000
    todo = [(key, s) for key in sorted(keys) for s in keys[key][:n]]
    for key, (row, k) in part(todo, i, parts):
        c2 = Cfg(rng, floats=['1.5'], ints=[1], p=0.999)
        t = None
        for _ in range(20):
            t = gen_form(row, cfg, focus=k, focus_cfg=c2, tries=400)
            if t is not None:
                idx = [j for j in gen_prefix(row, k, t) if t[j].type == FLT]
                if idx:
                    break
                t = None
        if t is None:
            continue
        j = idx[0]
        g += 1
        s0 = [spell(x, rng) for x in t]
        yield join([row.mnemonic] + s0) + ';\n', (g, True, key)
        lits = list(FLOATS)
        for _ in range(60):
            e = rng.r.randrange(-30, 20)
            lits.append(rng.pick(['', '-', '+']) + fixed(rng.r.random() * 2.0 ** e))
        for _ in range(60):   # near binary16 and 20-bit rounding boundaries
            e = rng.r.randrange(-26, 17)
            m = rng.r.randrange(0, 2048)
            x = (1024 + m / 2) * 2.0 ** (e - 10)
            x += rng.pick([0, 2.0 ** -40 * x, -2.0 ** -23 * x, 2.0 ** -23 * x])
            lits.append(rng.pick(['', '-']) + fixed(x))
        for q in range(24):   # next to the middle of two binary32 values, closer than binary64 can tell
            e = rng.r.randrange(-14, 15)
            m = rng.pick([0xFFFFFF, 0xFFFFFF, 0x800000, 0xFFEFFF, 0x800FFF, 0x801000, rng.r.randrange(0x800000, 0x1000000), rng.r.randrange(0x800, 0x1000) << 12 | 0xFFF])
            lits.append(rng.pick(['', '-']) + near_middle(m, e, rng.pick([-1, 1, 0])))
        lits += ['INF', '-INF', '+INF', '- INF', 'QNAN', '-QNAN', '+QNAN', '+ QNAN', 'NAN', '--INF', '-+INF', '- 1.5', '+ 1.5', '-1.5',
                 'inf', 'INFINITY', '+', '-', 'R0']
        ints = [v for v in INTS] + [16777215, 16777216, 16777217, 16777218, 33554433, 33554434, -16777217, 65504, 65519, 65520, 2049, 2051]
        lits += [str(v) for v in (ints if i % 2 == 0 else ints[::5])]
        for lit in lits:
            s = list(s0)
            s[j] = lit
            yield join([row.mnemonic] + s) + ';\n', (g, False, key)


def near_middle(m, e, d):
    """the decimal (2m+1) * 2^(e-24), moved by d * 10^-70"""
    k = e - 24
    n = (2 * m + 1) * 10 ** 70
    n = n << k if k >= 0 else n // 2 ** -k
    n += d
    return '%d.%070d' % (n // 10 ** 70, n % 10 ** 70)


def fixed(x):
    s = '%.60f' % x
    s = s.rstrip('0')
    return s + '0' if s.endswith('.') else s


ANN = ['@WAIT', '@WB', '@RB', '@DEP', '@Y', '@YIELD']


def f_sched(seed, n, i, parts):
    rng = Rng(seed * 1000 + 300 + i)
    r = rng.r
    if i == 0:
        for v in list(range(-270, 270)) + INTS[::7]:
            for a in ('WAIT', 'WB', 'RB', 'DEP'):
                yield 'NOP @%s %d;\n' % (a, v), 0
                yield 'EXIT @Y @%s 0x%X;\n' % (a, abs(v)), 0
        for m in range(64):
            yield 'NOP ' + ' '.join('@DEP %d' % k for k in range(6) if m >> k & 1) + ';\n', 0
        for s in range(16):
            for w in range(6):
                yield 'NOP @WAIT %d @WB %d @RB %d;\n' % (s, w, (w + s) % 6), 0
        for bad in ('@', '@WAIT', '@WAIT R0', '@WAIT 1.0', '@WAIT WB', '@STALL 1', '@wait 1', '@W 1', '@DEP', '@DEP P0', '@Y 1', '@YIELD Y',
                    '@R 0', '@WBX 1', '@ WAIT 3', '@WAIT -0', '@WAIT +3', '@WAIT 3 3', 'WAIT 3', '@PT', '@P0', '@ Y', '@Y@YIELD', '@YIELD@Y',
                    '@WAIT3', '@WAIT 0x', '@WB 6', '@RB 6', '@RB 7', '@WB 7', '@DEP 6', '@DEP 7', '@WAIT 16', '@WAIT 15', '@Y @', '@RB 0 @RB 0',
                    '@WB 0 @WB 1', '@WAIT 0 @WAIT 0', '@WAIT 0 @WAIT 5', '@DEP 0 @DEP 0', '@DEP 5 @DEP 3 @DEP 5', '@Y @WAIT 1 @Y'):
            yield 'NOP %s;\n' % bad, 0
            yield 'EXIT @WAIT 1 %s;\n' % bad, 0
    if i == 1:
        for w in code_words() + ['WAIT', 'WB', 'RB', 'DEP', 'Y', 'YIELD']:
            for u in {w, w.upper(), w.lower()}:
                for v in ('', ' 0', ' 1', ' 7'):
                    yield 'NOP @%s%s;\n' % (u, v), 0
                    yield 'EXIT @WAIT 1 @%s%s;\n' % (u, v), 0
    names = ['NOP', 'EXIT', 'MOV R0, R1', 'MOV R0.CC, R1', '@P0 IADD R0, R1.reuse, R2', 'FADD R1, R2.reuse, R3.reuse',
             'FFMA R0, R1.reuse, R2.reuse, R3.reuse']
    for _ in range(n):
        parts_ = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])):
            a = r.choice(ANN)
            if a in ('@Y', '@YIELD'):
                parts_.append(a)
            else:
                hi = 15 if a == '@WAIT' else 5
                v = r.randint(0, hi) if r.random() < 0.93 else r.choice([-1, hi + 1, 16, 7, 100])
                parts_.append('%s %s' % (a, r.choice(['%d', '0x%X']) % v if v >= 0 else str(v)))
        # usually distinct annotations
        if r.random() < 0.7:
            seen = set()
            q = []
            for p in parts_:
                kk = p if 'DEP' in p else p.split()[0].replace('@YIELD', '@Y')
                if kk not in seen:
                    seen.add(kk)
                    q.append(p)
            parts_ = q
        yield r.choice(names) + ' ' + ' '.join(parts_) + ';\n', 0


def f_guard(seed, n, i, parts):
    """every form under every guard, and .reuse on every register"""
    rng = Rng(seed * 1000 + 400 + i)
    cfg = Cfg(rng, p=0.4)
    for row in part(rows(), i, parts):
        t = gen_form(row, cfg, tries=400)
        if t is None:
            continue
        s = form_text(row, t, rng)
        for p in ('P0', 'P1', 'P2', 'P3', 'P4', 'P5', 'P6', 'PT'):
            for ng in ('', '!'):
                yield '@%s%s %s;\n' % (ng, p, s), ('guard', row.n)
        yield s + ';\n', ('guard', row.n)
        for g in ('P7', 'R0', '0', 'X', '@P0', '-P0', '!!P0', '~P0'):
            if rng.flip(0.2):
                yield '@%s %s;\n' % (g, s), ('guard', row.n)
        for _ in range(n):
            t = gen_form(row, cfg, tries=400)
            if t is None:
                continue
            regs = [j for j, x in enumerate(t) if x.type == REG]
            base = [spell(x, rng) for x in t]
            for j in regs:
                b = list(base)
                if j + 1 < len(b) and b[j + 1] == '.reuse':
                    del b[j + 1]
                else:
                    b.insert(j + 1, '.reuse')
                yield join([row.mnemonic] + b) + ';\n', ('reuse', row.n)
            b = []
            for j, x in enumerate(base):
                if x == '.reuse':
                    continue
                b.append(x)
                if j in regs and rng.flip(0.8):
                    b.append('.reuse')
            yield join([row.mnemonic] + b) + ';\n', ('reuse', row.n)
            if regs:
                b = list(base)
                b.insert(regs[0] + 1, '.reuse')
                b.insert(regs[0] + 1, '.reuse')
                yield join([row.mnemonic] + b) + ';\n', ('reuse', row.n)


BRANCH = ['BRA', 'CAL', 'PCNT', 'SSY', 'PBK']


def branch_rows():
    return [r for r in rows() if 'label' in r.keys]


def f_label(seed, n, i, parts):
    rng = Rng(seed * 1000 + 600 + i)
    r = rng.r
    br = sorted({x.mnemonic for x in branch_rows()})
    names = ['A', 'loop', 'L1', 'end_', 'x_1', 'B2B', 'main', 'Q', 'zz9', 'RX', 'Px', 'P2x', 'R1a', 'LOOP', 'a', 'a1', 'a_']
    for _ in range(n):
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 25, 40])
        ls = r.sample(names, r.randint(1, 4))
        lines = []
        slots = {}
        for l in ls:
            slots.setdefault(r.randint(0, k), []).append(l)
        if r.random() < 0.3:
            slots.setdefault(r.randint(0, k), []).append(r.choice(ls))
        for q in range(k):
            for l in slots.get(q, []):
                lines.append(l + ':' + r.choice(['', '', ' ', '\n', ' NOP;', '\t']))
            if r.random() < 0.5:
                m = r.choice(br)
                if r.random() < 0.75:
                    tgt = r.choice(ls)
                elif r.random() < 0.2:
                    tgt = r.choice(['nolabel', ls[0] + 'x', ls[0][:-1] or 'q', ls[0].swapcase()])
                else:
                    tgt = str(r.choice([0, 8, 16, 0x20, 0x48, 0x100, 0x7FFFFF, 0x800000, 0x800008, 0x800010, -8, -0x800000, 0x80001F, 0x800007]))
                lines.append('%s%s %s;' % (r.choice(['', '@P0 ', '   ']), m, tgt))
            else:
                lines.append(r.choice(['NOP;', 'EXIT;', 'MOV R0, R1;', ' NOP @WAIT 3;', 'NOP; NOP;', '  ']))
        for l in slots.get(k, []):
            lines.append(l + ':')
        yield '\n'.join(lines) + r.choice(['\n', '', '\n\n']), 'label'
    if i == 0:
        for pcn in range(0, 8):
            own = oracle.address(pcn)
            for m in br[:6]:
                for base in (0, (1 << 23), -(1 << 23), own, (1 << 24), (1 << 31), -(1 << 31), (1 << 32), (1 << 63) - 1, -(1 << 63)):
                    for d in (-9, -8, -7, -1, 0, 1, 7, 8, 9, 16):
                        v = base + own + d
                        if -(1 << 63) <= v < 1 << 63:
                            yield 'NOP;' * pcn + '%s %d;\n' % (m, v), 'absolute'
        for t in ('A:', 'A :', ' A:', '\tA:', 'A\n:', 'A: A:', '1A:', '_A:', 'A_:', 'A.B:', 'A-B:', 'A:B:', 'A: NOP;', 'AA:', '.A:', 'a:', '\rA:', 'A:\r', 'A$:', 'A$A:', '$A:', 'A#:', 'A@:', 'A,:', 'A;:', 'A;A:', 'NOP;A:', 'NOP; A:', 'NOP;\tA:', 'x:A:', 'x: A:', 'x:\tA:', ';A:',
                  'A::', 'A0:', 'A\x80:', '\xffA:', 'A\x0b:', 'A\x0c:', 'A\r:', 'A\t:', 'A?:', 'A.:', 'A!:', 'A(:', '@A:', '-A:', '!A:', '0:', 'A:0', 'A:;'):
            for m in br[:3]:
                yield 'NOP;\n%s\nNOP;\n%s A;\n' % (t, m), 'shape'
                yield '%s A;\nNOP;\n%s' % (m, t), 'shape'
                yield '%s A;\nNOP; %s\nNOP;\n' % (m, t), 'shape'
                nm = t.strip(' \t\r\n:')
                if nm and nm != 'A':
                    yield 'NOP;\n%s\nNOP;\n%s %s;\n' % (t, m, nm), 'shape'
                    yield '%s %s;\nNOP;\n%s\nNOP;\n' % (m, nm, t), 'shape'
                yield '%s A;\nNOP;\n%s\n%s\nNOP;' % (m, t, t), 'shape'
        # long names, names that differ only far in, and far targets
        for big in (7, 8, 15, 16, 22, 23, 24, 31, 32, 33, 47, 63, 64, 65, 80, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 65536):
            w = 'aZ_9bC' * (big // 6 + 1)
            w = w[:big]
            yield 'NOP;\n%s:\nNOP;\nBRA %s;\n' % (w, w), 'long'
            yield 'NOP;\n%sx:\nNOP;\n%sy:\nNOP;\nBRA %sy;\nBRA %sx;\n' % (w, w, w, w), 'long'
            yield 'NOP;\n%sx:\nNOP;\nBRA %s;\n' % (w, w), 'long'
            yield 'NOP;\n%s:\nNOP;\nBRA %sx;\n' % (w, w), 'long'
        for q in (5, 6, 47, 95, 96, 97, 191, 192, 767, 3071, 6142, 6143, 6144, 6145, 12287, 12288, 12289, 25000, 49151, 49152, 65535, 65537, 98303, 98305):
            yield 'NOP;' * q + '\nA:\nNOP;\nBRA A;\n', 'far'
            yield 'BRA A;\n' + 'NOP;' * q + '\nA:\nNOP;\n', 'far'
            yield 'A:' + 'NOP;' * q + '\nBRA A;\nBRA 0;\n', 'far'
        for q in (40, 300, 3000):
            yield ''.join('L%d:\nNOP;\n' % k for k in range(q)) + ''.join('BRA L%d;\n' % k for k in range(0, q, 37)), 'many'
        for q in range(0, 30):
            yield 'NOP;\n' * q + 'A:\n' + 'NOP;\n' * 5 + 'BRA A;\n', 'shape'
            yield 'BRA A;\n' + 'NOP;\n' * q + 'A:\nNOP;\n', 'shape'
            yield 'BRA A;' + 'NOP;' * q + '\nA:\nNOP;\nA:\nBRA A;\n', 'shape'


LEX = ['R0', 'R1', 'R254', 'R255', 'R256', 'R007', 'R00', 'RZ', 'RZ1', 'RZX', 'R', 'R1x', 'Rx', 'r1', 'R-1', 'R+1', 'R1.5', 'R999', 'R99999999999999999999', 'R0x1',
       'P0', 'P6', 'P7', 'P8', 'P9', 'PT', 'Pt', 'pT', 'p0', 'p3', '!P0', '!PT', '!p2', '!', '!!P0', '!R0', '!1', '! P0', 'P', 'p', '!P', 'P00', 'P0x', 'PTx', 'P2R', 'P1.', '!P7', '!P8', '!Pt', 'PX', '!PX',
       '0', '1', '10', '-1', '+1', '-0', '+0', '007', '010', '08', '0x', '0x0', '0xF', '0xf', '0XA', '-0x1', '+0x7F', '0x1G', '1a', 'a1', '1x', '0b1', '1_0', "1'0", '12:', '12:;',
       '1.0', '1.', '.5', '0.5', '-.5', '-0.5', '+1.25', '1.0.0', '1.0f', '1e5', '1.0e5', '1e', '0x1.8', '1.5:', '1..5', '1.-5', '1-1', '1+1', '1-', '--1', '+-1', '-+1', '- 1', '1D', '2D', '3D', '1DX', '-1D', '+2D', '1D5', '0D',
       'A', 'abc', 'A_b', '_x', 'a:', 'a:b', ':', '::', 'x:y:', '.X', '.', '..', '.a.b', '$', '#', '%', '&', '*', '(', ')', '{', '}', '/', '\\', '"', "'", '<', '>', '=', '?', '^', '`',
       '+', '-', '~', '|', '[', ']', '@', ',', ';', '\x7f', '\x80', '\xff', '\x01', '\x0b', '\x0c', 'c', 'c[1][4]', 'c[0x1][-0x4]', 'a[0x10]',
       '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '0x7FFFFFFFFFFFFFFF', '0x8000000000000000', '4294967295', '4294967296',
       '2147483647', '-2147483648', '0777', '0888', '1A', '1d', '1d:', '9d:', '1D:', '1D:x', '1:', '1a:', '0x1:', '1.5:', '-1:', '1D', '2D:', '1x:', 'R1:', 'RZ:', 'P1:', 'PT:', '!P1:', 'R256:', 'P8:', 'R1a:', 'P1a:', '_:', '_1:', '.a:', '$:', '0xAG', '0xA.', '1E', '00', '0000001', '1:', 'INF', 'QNAN', 'INFx', 'T', 'Z', 'RT', 'PZ', 'PTT', 'RZZ', 'P0P', 'PT.X']


LEXCTX = ['MOV32I R0, %s;\n', 'MOV R0, %s;\n', 'MOV %s, R1;\n', 'FADD32I R0, R1, %s;\n', 'SEL R0, R1, R2, %s;\n', '@%s NOP;\n', '%s NOP;\n', 'NOP %s;\n',
          'NOP%s;\n', '%s', '%s;\n', 'NOP;%s\nNOP;\n', 'BRA %s;\n', 'NOP @WAIT %s;\n', 'LDG R0, [R1 %s];\n', 'LDG R0, [%s];\n', 'MOV R0, c[%s][0];\n',
          'MUFU.%s R0, R1;\n', 'S2R R0, %s;\n', 'TEX R0, R1, RZ, 0, %s, 1;\n', 'NOP;\n\t%s\n', 'FADD R0, R1, %s;\n', 'IADD R0, R1, %s;\n', 'PSETP.AND.AND %s, PT, PT, PT, PT;\n',
          'XMAD %s, R0, R0, R0;\n', 'DADD R0, R2, %s;\n', 'IADD%s R0, R1, R2;\n', 'SHL R0, %s, 1;\n', 'MOV R0, R1%s;\n', 'ISETP.GT.AND P0, %s, R0, R1, PT;\n']
CEX = []       # texts of the verifier's counterexamples


def f_cex(seed, n, i, parts):
    """the verifier's counterexamples in every kind of place, extended by a character"""
    for t in part(CEX, i, parts):
        t = t.replace('%', '')
        for x in [t] + [t + c for c in ':;, \n.1aDdX@[]+-|~Z\t_'] + [c + t for c in '1aRP-+. \n@!'] + [t + ':b', t + t, 'a' + t + ':', t + '1:']:
            for c in LEXCTX:
                yield c % x, 'lex'
            yield 'NOP;\n%s\nNOP;\nBRA a;\na:\nNOP;\n' % x, 'lex'
            yield '%s\nNOP;\n%s BRA %s;\n' % (x, x, x.strip(' :\n')), 'lex'
            yield 'BRA %s;\n%s\nNOP;\n' % (x.strip(' :\n'), x), 'lex'


def f_lex(seed, n, i, parts):
    """lexemes in every kind of place, spacing, positions"""
    rng = Rng(seed * 1000 + 700 + i)
    r = rng.r
    ctx = LEXCTX
    if i == 0:
        for c in ctx:
            for x in LEX:
                yield c % x, 'lex'
    elif i == 1:
        good = ['MOV32I R0, 1', 'MOV R0, R1', 'FADD32I R0, R1, 1.5', '@!P3 IADD R0, -R1, R2', 'LDG R0, [R1+0x10]', 'EXIT', 'SEL R0, R1, R2, !P2',
                'MOV R7, c[0x0][0x10]', 'NOP @WAIT 5 @Y', 'ISETP.GT.AND P0, PT, R1, R2, PT']
        for q in range(n * 4):
            toks = []
            L = oracle.Lexer(r.choice(good))
            k = 0
            while L.get(k).type:
                toks.append(L.s[L.get(k).begin:L.get(k).end])
                k += 1
            toks.append(';')
            s = ''.join(t + r.choice(['', '', ' ', '  ', '\t', '\n', '\r\n', ' \t', '\n\n ']) for t in toks)
            pre = ''.join(r.choice([' ', '\t', '\n', '\r', 'NOP;', 'lab:', 'x1:\n', 'EXIT;\n']) for _ in range(r.randint(0, 6)))
            if r.random() < 0.5:
                s += r.choice([' ', '', '\t', '\n', '\t\t']) + r.choice(LEX) + r.choice([';', '\n', ''])
            yield pre + s, 'lex'
    else:
        if i == 2:
            # wrap-around candidates, all registers, all predicates
            nums = list(range(0, 270)) + [b + k for b in (1 << 9, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 63, 1 << 64, 1 << 65, 10 ** 20, 10 ** 30)
                                          for k in (-1, 0, 1, 2, 7, 254, 255)]
            for v in nums:
                yield 'MOV R%d, R1;\n' % v, 'lex'
                yield 'SEL R0, R1, R2, P%d;\n' % v, 'lex'
                yield 'SEL R0, R1, R2, !P%d;\n' % v, 'lex'
                yield 'MOV R0, R0%d;\n' % v, 'lex'
                yield 'NOP; MOV32I R0, %d;\n' % v, 'lex'
                yield 'NOP; MOV32I R0, -%d;\n' % v, 'lex'
                yield 'NOP; MOV32I R0, 0x%x;\n' % v, 'lex'
                yield 'NOP; MOV32I R0, 0%o;\n' % v, 'lex'
        if i == 3:
            # every character at every interesting place
            for k in range(1, 256):
                ch = chr(k)
                for c in ('%s', '%s;', 'R%s', 'R1%s', 'RZ%s', 'P%s', 'P1%s', '!P%s', '!%s', 'PT%s', '1%s', '1.%s', '1.5%s', '0x%s', '0x1%s', '-%s', '+1%s', 'a%s', 'a%sb', '.%s', 'a:%s', '1%s1', '@%s', 'NOP%s;', 'NOP;%sNOP;',
                          'MOV R0,%sR1;', 'MOV R0, R1%s;', 'MOV32I R0, 1%s;', 'MOV32I R0, 0x%s1;', 'SEL R0, R1, R2, P1%s;', 'FADD32I R0, R1, 1.5%s;', 'NOP;\n%sX', 'BRA a%s;\na%s:\nNOP;', 'NOP;\n%sa:\nBRA a;', '1%s:', '1%sa:', 'R%s:', 'R1%s:', 'P%s:', 'P1%s:', '0x%s:', '%s:', '%s1:', 'a%s:'):
                    yield c.replace('%s', ch), 'lex'
        if i == 5:
            # literals at the ends of the conversions, and what follows them
            odd = ['0.' + '0' * k + '1' for k in (30, 36, 37, 38, 40, 43, 44, 45, 46, 50, 80, 330, 400)] + \
                  ['9' * k + '.0' for k in (30, 37, 38, 39, 40, 50, 310, 400)] + ['0.' + '0' * k for k in (1, 60, 400)]
            for x in odd:
                for sg in ('', '-', '+'):
                    yield 'FADD32I R0, R1, %s%s;\n' % (sg, x), 'lex'
                    for y in ('MOV32I R0, 5', 'MOV32I R0, -0x7F', 'MOV R7, R9', 'IADD R0, R1, 0x10', 'MOV32I R0, 010', 'NOP @WAIT 5', 'LDG R0, [R1+0x10]'):
                        yield 'FADD32I R0, R1, %s%s;\n%s;\n' % (sg, x, y), 'lex'
            # every short string of the characters of numbers
            for k in (1, 2, 3, 4, 5):
                for w in itertools.product('01xFe.-', repeat=k):
                    yield 'FADD32I R0, R1, %s;\n' % ''.join(w), 'lex'
            for y in ('9223372036854775807', '-9223372036854775808', '18446744073709551615'):
                yield 'BRA 8; NOP; MOV32I R0, %s;' % y, 'lex'
        if i == 4:
            for big in (100, 255, 256, 257, 300, 1000, 4096, 70000):
                yield ' ' * big + 'X', 'lex'
                yield '\n' * big + 'X', 'lex'
                yield '\t' * big + 'X', 'lex'
                yield 'NOP' + ' ' * big + ';' + ' ' * big + 'FOO', 'lex'
                yield 'A' * big + ';', 'lex'
                yield 'A' * big + ':\nBRA ' + 'A' * big + ';', 'lex'
                yield 'A' * big + 'b:\nBRA ' + 'A' * big + 'c;', 'lex'
                yield 'x: ' * big + 'NOP;', 'lex'
                yield 'MOV32I R0, ' + '0' * big + '17;', 'lex'
                yield 'MOV32I R0, 0x' + '0' * big + '17;', 'lex'
                yield 'MOV R' + '0' * big + '17, R0;', 'lex'
                yield 'FADD32I R0, R1, 1.' + '0' * big + ';', 'lex'
                yield 'FADD32I R0, R1, ' + '0' * big + '1.5;', 'lex'
                yield 'NOP;' * big, 'lex'
        alpha = ' \t\n;.,@+-~|[]!PRTZ0123456789abcDxX_:' + 'MOVIADD'
        for q in range(n * 4):
            yield ''.join(r.choice(alpha) for _ in range(r.randint(0, 24))), 'lex'
            s = r.choice(ctx) % ''.join(r.choice(alpha) for _ in range(r.randint(1, 5)))
            yield s, 'lex'
            yield ''.join(chr(r.choice([r.randint(1, 255), 10, 32, 59, 80, 82])) for _ in range(r.randint(0, 12))), 'lex'


DIRS = ['.dksh', '.type', '.num_gprs', '.workgroup_size', '.shared_memory', '.local_memory']
TYPES = sorted(oracle.TYPES)
VALS = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 100, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65535, 65536, 0xFFFFF, 0xFFFFF0, 0xFFFFFF, 0x1000000,
        2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 63 - 1, -1, -2, -2 ** 31, -2 ** 63]


def f_directive(seed, n, i, parts):
    rng = Rng(seed * 1000 + 800 + i)
    r = rng.r
    if i == 0:
        for v in VALS + list(range(0, 300, 13)):
            for d in ('.num_gprs', '.shared_memory', '.local_memory'):
                for hx in ('%d', '0x%X'):
                    yield '.dksh compute\n%s %s\nmain:\nNOP;\n' % (d, (hx % v) if v >= 0 else str(v)), 'dir'
            for k in range(3):
                w = [3, 5, 7]
                w[k] = v
                yield '.dksh compute\n.workgroup_size %d %d %d\nmain:\nNOP;\n' % tuple(w), 'dir'
        for d in DIRS + ['.unknown', '.', '.dkshx', '.DKSH', '.num_gpr', '.Type', '.entrypoint']:
            for a in ['', ' ', ' 1', ' 1 2', ' 1 2 3', ' 1 2 3 4', ' R1', ' 1.5', ' x', ' compute', ' vertex', ' hull', ' domain', ' pixel', ' fragment', ' geometry',
                      ' tess_control', ' tess_eval', ' compute compute', ' Compute', ' comput', ' computer', '\n1', '\ncompute', ' 1\n2 3', ' 1 2\n3', ' -1', ' - 1', ' 1;', ' NOP;', ' P0', ' "x"', ' 1,2,3', '.compute', ' .type', ' :', ' a:', ' a: 1']:
                for tail in ['\nmain:\nNOP;\n', '\nNOP;\n', '', '\n']:
                    yield d + a + tail, 'dir'
                yield '.dksh compute\n' + d + a + '\nmain:\nNOP;\n', 'dir'
                yield '.dksh compute\nmain:\nNOP;\n' + d + a + '\nNOP;\n', 'dir'
        for w in code_words():
            if w.startswith('.') and w not in DIRS:
                for v in ('', ' 1', ' 1 2 3', ' x', ' main', ' compute'):
                    yield '%s%s\nmain:\nNOP;\n' % (w, v), 'dir'
                    yield '.dksh compute\n%s%s\nmain:\nNOP;\n' % (w, v), 'dir'
            else:
                yield '.type %s\nNOP;\n' % w, 'dir'
                yield '.dksh %s\nmain:\nNOP;\n' % w, 'dir'
                yield '.%s 1\nmain:\nNOP;\n' % w, 'dir'
        for t1 in TYPES:
            for d in ('.num_gprs', '.shared_memory', '.local_memory'):
                for v in VALS[:28]:
                    yield '.dksh %s\n%s %d\nmain:\nNOP;\n' % (t1, d, v), 'dir'
            for v in (1, 255, 65536, 2 ** 31 - 1):
                yield '.dksh %s\n.workgroup_size %d 3 %d\n.local_memory 700000\n.shared_memory 100000\n.num_gprs 255\nmain:\nNOP;\n' % (t1, v, v), 'dir'
        for t1 in TYPES + ['bogus']:
            for d1 in ('.dksh', '.type'):
                yield '%s %s\nmain:\nNOP;\n' % (d1, t1), 'dir'
                for d2 in ('.dksh', '.type'):
                    yield '%s %s\n%s compute\nmain:\nNOP;\n' % (d1, t1, d2), 'dir'
    if i == 2:
        # many directives in a row, before and between instructions
        for k in (2, 3, 5, 8, 9, 12, 16, 17, 33, 65, 257):
            many = ''.join('.num_gprs %d\n.shared_memory %d\n.local_memory %d\n' % (q, q * 3, q * 5) for q in range(1, k))[:-1].split('\n')[:k]
            for pre in ('.dksh compute\nmain:\n', '.dksh compute\nmain:\nNOP;\n', '.dksh compute\nmain:\nNOP;NOP;NOP;\n'):
                yield pre + '\n'.join(many) + '\nNOP;\n', 'dir'
    if i == 1:
        # code sections around every multiple of 256 bytes, and long ones
        for k in list(range(0, 110)) + [q * 24 + z for q in (5, 7, 8, 10, 11, 15, 16, 21, 22, 32, 42, 43, 64, 85, 86, 128, 171, 256) for z in (-1, 0, 1, 23)]:
            yield '.dksh compute\nmain:\n' + 'NOP;' * k + '\n', 'dir'
            if k % 5 == 0:
                yield '.type compute\n' + 'EXIT;' * k + '\n', 'dir'
                yield '.dksh compute\n' + 'NOP;' * k + '\nmain:\nEXIT;', 'dir'
    for _ in range(n):
        ls = []
        if r.random() < 0.85:
            ls.append(r.choice(['.dksh compute', '.dksh compute', '.dksh compute', '.type compute', '.dksh vertex', '.type fragment']))
        for _ in range(r.randint(0, 6)):
            d = r.choice(['.num_gprs', '.workgroup_size', '.shared_memory', '.local_memory'])
            if r.random() < 0.85:
                v = lambda: r.choice([r.randint(0, 70000), r.randint(0, 300), r.choice(VALS[:26])])
                ls.append(d + ' ' + ' '.join(str(v()) for _ in range(3 if 'work' in d else 1)))
            else:
                ls.append(d + ' ' + r.choice(['', 'x', '-1', '1 2', '4294967296', 'R0', '1.0']))
        r.shuffle(ls)
        prog = []
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 24, 25])
        at = r.choice([0, 0, 0, 3, 6, r.randint(0, max(k, 1))])
        for q in range(k):
            if q == at:
                prog.append('main:')
            if r.random() < 0.1 and ls:
                prog.append(ls.pop())
            prog.append(r.choice(['NOP;', 'EXIT;', 'MOV R0, R1;', 'BRA main;']))
        if at >= k and r.random() < 0.9:
            prog.append('main:')
        yield '\n'.join(ls + prog) + '\n', 'dir'


POOL = ['NOP;', 'EXIT;', 'MOV R0, R1;', 'MOV R5, R9.reuse @WAIT 3;', 'IADD R0, R1.reuse, R2.reuse @Y;', 'FFMA R0, R1.reuse, R2.reuse, R3.reuse @WAIT 15 @WB 5 @RB 5 @DEP 5 @DEP 4 @DEP 3 @Y;',
        'MOV32I R3, 0x12345678;', '@P0 FADD R0, R1, R2;', '@!P5 MUFU.RCP R0, R4 @WB 0 @RB 1 @WAIT 1;', 'NOP @DEP 0;', 'XMAD R0, R1, R2, R3;', 'S2R R0, SR_LANEID @WB 0;',
        'LDG.E R0, [R2+0x10] @WB 1 @WAIT 2;', 'STG.E [R2], R0 @RB 2;', 'ISETP.GT.AND P0, PT, R1, 0x10, PT @WAIT 13;', 'LOP32I.AND R0, R1, 0xFF;', 'FADD R0, R1, 1.5 @Y @WAIT 1;']


def f_multi(seed, n, i, parts):
    """programs of several instructions; tag = list of the instruction texts"""
    rng = Rng(seed * 1000 + 900 + i)
    r = rng.r
    if i == 0:
        for k in range(0, 26):
            ins = [POOL[(j * 5 + k) % len(POOL)] for j in range(k)]
            yield '\n'.join(ins) + '\n', ins
            yield ' '.join(ins), ins
            ins = ['NOP;'] * k
            yield ''.join(ins), ins
        yield ' \n\t ', []
        for k in (50, 64, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 383, 384, 385, 511, 512, 513, 767, 768, 769, 1000, 1024, 1025, 2048, 3000, 6143, 6145, 16385, 32769, 65543):
            ins = [POOL[(j * 7 + k + j // 17) % len(POOL)] for j in range(k)]
            yield '\n'.join(ins) + '\n', ins
        for a in POOL:
            for b in POOL:
                yield a + b, [a, b]
    cfg = Cfg(rng, p=0.5)
    pool = list(POOL)
    for row in part(rows(), i, parts):
        if 'label' in row.keys:
            continue
        t = gen_form(row, cfg, tries=400)
        if t is not None:
            pool.append(form_text(row, t, rng) + r.choice(['', ' @WAIT %d' % r.randint(0, 15), ' @Y @DEP %d' % r.randint(0, 5)]) + ';')
    for _ in range(n):
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 30])
        ins = [r.choice(pool) for _ in range(k)]
        yield r.choice(['\n', ' ', '', '\n\n\t']).join(ins) + r.choice(['', '\n', ' ']), ins


def f_errors(seed, n, i, parts):
    """rejected programs with the fault at a known place among good lines"""
    rng = Rng(seed * 1000 + 950 + i)
    r = rng.r
    src = list(f_mutate(seed + 77, max(1, n // 3), i, parts))
    bad = ['FOO R0;', 'MOV R0;', 'MOV R0, ;', 'MOV R300, R0;', 'MOV P0, R0;', 'IADD R0, R1, 0x80000;', 'NOP @WAIT 99;', 'NOP', '@X NOP;', 'BRA nowhere;', 'MOV R0, c[99][0];',
           'MOV R0, c[0][2];', 'P9', '!x', '5x;', 'RZa', '.type foo', '.num_gprs x', '@P0;', 'NOP @WAIT 1 @WAIT 2;', '@P0 DEPBAR.LE SB0, 1;', 'LDG R0, [R1+0x1000000];', '.dksh', 'MOV R0, R1 R2;',
           'FADD R0, R1, R2.reuse.reuse;', 'IADD R0.reuse, R1, R2;', '-', ';', 'NOP;;', '1;', 'a b c;', '.num_gprs 1 2', '\t\tFOO;', 'MOV\tR0,\tR1\tR2;', '99999999999999999999;',
           '.workgroup_size 1 2', '.workgroup_size 1 2 x', '.local_memory 16777216', '.shared_memory -1']
    if i == 0:
        for big in (60, 100, 126, 127, 128, 200, 254, 255, 256, 257, 400, 500, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 10000, 70000):
            w = 'Qa_7' * (big // 4) + 'z' * (big % 4)
            for t in ('%s R0;', 'MOV %s, R1;', 'MOV R0, %s;', 'NOP @WAIT %s;', 'NOP @%s;', 'BRA %s;', 'NOP %s', '@%s NOP;', 'IADD.%s R0, R1, R2;', '.type %s', '.num_gprs %s', 'S2R R0, %s;',
                      'MOV32I R0, 1%s;', 'MOV R1%s;', 'RZ%s'):
                yield 'NOP;\n  ' + t % w + '\nNOP;\n', 'err'
        for big in (20, 100, 255, 256, 500, 512, 1024, 4096):
            for t in ('MOV32I R0, %s;', 'MOV R%s, R0;', 'MOV R0, c[%s][0];', '.num_gprs %s', 'NOP @WAIT %s;'):
                yield '\tNOP;\n\t' + t % ('9' * big) + '\n', 'err'
    for k in range(n * 6):
        pre = [r.choice(['NOP;', '', 'MOV R0, R1;', 'lab:', '  EXIT;', '\tNOP;', 'NOP; NOP;']) for _ in range(r.randint(0, 5))]
        b = r.choice(bad) if r.random() < 0.6 or not src else r.choice(src)[0].rstrip('\n')
        post = [r.choice(['NOP;', 'FOO;', '']) for _ in range(r.randint(0, 2))]
        sep = r.choice(['\n', '\r\n', '\n\n'])
        yield sep.join(pre) + (sep if pre else '') + r.choice(['', ' ', '\t', '   ', 'NOP; ', '\t\t ']) + b + '\n' + '\n'.join(post), 'err'
    # the same mnemonic before the fault, in any of its forms
    good = {}
    cfg = Cfg(rng, p=0.5)
    for row in rows():
        if 'label' not in row.keys:
            t = gen_form(row, cfg, tries=200)
            if t is not None:
                good.setdefault(row.mnemonic, []).append(form_text(row, t, rng) + ';')
    for b, _ in src:
        g = good.get(re.split('[^A-Za-z0-9_]', b, maxsplit=1)[0], [])
        if len(g) > 1:
            yield r.choice(g) + '\n' + b, 'err'


FAMS = {'forms': f_forms, 'enum': f_enum, 'mutate': f_mutate, 'int': f_int, 'float': f_float, 'sched': f_sched,
        'guard': f_guard, 'label': f_label, 'lex': f_lex, 'directive': f_directive, 'multi': f_multi, 'cex': f_cex, 'errors': f_errors}


def focus(fam, seed, n, i, parts, what):
    """instructions around given operand kinds and values (from failed obligations)"""
    rng = Rng(seed * 1000 + 990 + i)
    keys = set(what.get('keys', ()))
    mns = set(what.get('mnemonics', ()))
    ints = list(what.get('ints', ())) + INTS
    sites = [(row, k) for row in rows() for k, key in enumerate(row.keys) if key in keys or row.mnemonic in mns]
    bykey = {}
    for s in sites:
        bykey.setdefault(s[0].keys[s[1]], []).append(s)
    few = []
    for key in sorted(bykey):
        few += bykey[key][:12] if len(keys) < 12 else bykey[key][:3]
    if not few:
        return
    grouped = fam in ('int', 'float')
    g = 50000000 + i * 1000000
    todo = n * 6
    per = max(20, todo // max(1, len(few)))
    cfg = Cfg(rng, p=0.5)
    for row, k in few:
        key = row.keys[k]
        g += 1
        base = gen_form(row, Cfg(rng, p=0.5, ints=[0]), focus=k, focus_cfg=Cfg(rng, ints=[0, 4, 8], floats=['1.5'], p=0.6), tries=400)
        if grouped:
            if base is None:
                continue
            yield form_text(row, base, rng) + ';\n', (g, True, key)
        for q in range(per // parts + 3):
            cfg.p = rng.pick([0.2, 0.5, 0.8])
            cfg.regs = rng.pick([[0, 1, 2, 255], list(range(256))])
            fc = Cfg(rng, ints=ints if q % 2 else SMALL + list(what.get('ints', ())), p=rng.pick([0.15, 0.5, 0.9]),
                     regs=[0, 1, 2, 3, 254, 255, 128])
            t = gen_form(row, cfg, focus=k, focus_cfg=fc, strict=False, tries=400)
            if t is None:
                continue
            tag = (g, False, key) if grouped else (row.n if fam != 'guard' else ('reuse', row.n))
            yield form_text(row, t, rng) + rng.pick([';\n', ';\n', ';\n', ' @WAIT 1;\n']), tag
            if q % 3 == 0 and not grouped:
                idx = gen_prefix(row, k, t)
                if idx:
                    s = [spell(x, rng) for x in t]
                    j = rng.pick(idx)
                    c = rng.pick(['del', 'dup', 'vocab', 'tok'])
                    if c == 'del':
                        del s[j]
                    elif c == 'dup':
                        s.insert(j, s[j])
                    elif c == 'vocab':
                        s[j] = rng.pick(vocab())
                    else:
                        s[j] = rng.pick(['R0', 'RZ', 'P0', '!P3', 'PT', '1', '-1', '0', '1.5', '-', '+', '~', '|', '[', ']', ',', '@', 'c', 'a'])
                    yield join([row.mnemonic] + s) + ';\n', tag
