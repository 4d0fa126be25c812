"""Which differences between the real code and the oracle break which property, and the search
for failing inputs."""
import hashlib
import os
import subprocess
import tempfile
import shutil
import struct
import time
from multiprocessing import Pool

from spec import oracle
from spec.operands import make
from . import families as F, run

# family -> size at quick
SIZE = dict(forms=12, enum=250, mutate=15, int=2, float=2, sched=500, guard=1, label=100, lex=120, directive=200,
            multi=80, errors=60, cex=1)
PLAN = {
    'C01': ['forms', 'enum', 'mutate', 'guard', 'label'],
    'C02': ['lex', 'enum', 'mutate', 'forms', 'int', 'float', 'sched', 'guard', 'label', 'directive', 'errors', 'multi'],
    'C03': ['int'],
    'C04': ['float'],
    'C05': ['sched'],
    'C06': ['multi', 'sched'],
    'C07': ['guard'],
    'C08': ['label'],
    'C09': ['multi', 'forms', 'label'],
    'C10': ['lex'],
    'C11': ['directive'],
    'C12': ['directive'],
    'C13': ['errors', 'mutate', 'lex', 'directive', 'sched', 'label'],
    'C14': [],
}


def lit(x):
    return x if isinstance(x, str) else repr(x)


def judge(prop, fam, items, real, fresh=None):
    """items: [(text, tag, expected, actual, diffs)] -> [(text, what)]"""
    out = []
    if prop in ('C03', 'C04'):
        mate = {}
        for text, tag, e, a, d in items:
            if isinstance(tag, tuple) and tag[1]:
                mate[tag[0]] = bool(d)
        for text, tag, e, a, d in items:
            if not d or not isinstance(tag, tuple):
                continue
            if not tag[1] and mate.get(tag[0], False):
                continue          # the instruction is wrong whatever the value is
            if tag[1] and prop == 'C03':
                continue
            if 'crash' in d or 'rejects' in d or 'accepts' in d:
                out.append((text, d))
            elif 'word' in d:
                m = make(tag[2]).mask
                if any(x & m or True for _, x, _, _ in d['word']):
                    out.append((text, d))
        return out
    if prop in ('C06', 'C09') and fam == 'multi':
        bad = [(text, tag, e, a, d) for text, tag, e, a, d in items if d]
        if not bad:
            return out
        singles = sorted({s for _, tag, *_ in bad for s in tag})
        one = dict(zip(singles, real([s + '\n' for s in singles])))
        if prop == 'C09':
            # alone means in a process of its own
            for s in [s for _, tag, *_ in bad[:8] for s in tag][:60]:
                one[s] = fresh(s + '\n')
        for text, tag, e, a, d in bad:
            outs = [one[s] for s in tag]
            if prop == 'C06' and e.ok and ('reuse' in d or 'ctl' in d):
                out.append((text, d))
                continue
            if any(o.status != 'ok' or len(o.words) != 4 for o in outs):
                if prop == 'C06' and 'crash' in d and e.ok:
                    out.append((text, d))
                continue
            ins = []
            for o in outs:
                i = oracle.Insn()
                i.value, i.sched, i.reuse = o.words[1], o.words[0] & 0x1FFFF, o.words[0] >> 17 & 15
                ins.append(i)
            want = oracle.layout(ins)
            if a.status != 'ok' or a.words != want:
                if prop == 'C09':
                    # same word count: some instruction differs from itself alone
                    if a.status == 'ok' and len(a.words) == len(want):
                        if not any(x != y for k, (x, y) in enumerate(zip(want, a.words)) if k % 4 or True):
                            continue
                out.append((text, {'expected': ['%016X' % w for w in want], 'actual': ['%016X' % w for w in a.words],
                                   'status': a.status + ' ' + a.plain.strip()}))
        return out
    for text, tag, e, a, d in items:
        if not d:
            continue
        hit = False
        if prop == 'C01':
            hit = any(k in d for k in ('word', 'accepts', 'rejects', 'count'))
        elif prop == 'C02':
            hit = 'crash' in d
        elif prop == 'C05':
            hit = any(k in d for k in ('ctl', 'accepts', 'rejects', 'crash', 'padlane', 'reuse', 'word'))
        elif prop == 'C06':
            hit = any(k in d for k in ('padlane', 'padword', 'count')) or ('crash' in d and e.ok)
        elif prop == 'C07':
            if tag and tag[0] == 'guard':
                hit = 'accepts' in d or 'rejects' in d or 'crash' in d or any(x & 0xF0000 for _, x, _, _ in d.get('word', []))
            else:
                hit = 'reuse' in d or 'accepts' in d or 'rejects' in d or 'crash' in d or 'word' in d or 'ctl' in d
        elif prop == 'C08':
            hit = any(k in d for k in ('word', 'accepts', 'rejects', 'crash', 'count'))
        elif prop == 'C09':
            if fam == 'forms':
                row = F.rows()[tag]
                first = not any(r.mnemonic == row.mnemonic for r in F.rows()[:tag])
                extra = any(int(y, 16) & ~int(x, 16) for _, _, x, y in d.get('word', []) + d.get('ctl', []) + d.get('reuse', []))
                hit = not first and extra
            elif fam == 'label':
                hit = False
        elif prop == 'C10':
            hit = bool(d)
        elif prop == 'C11':
            hit = any(k in d for k in ('header', 'accepts', 'rejects', 'crash', 'count'))
        elif prop == 'C12':
            hit = any(k in d for k in ('header', 'padding', 'count', 'accepts', 'rejects', 'crash'))
        elif prop == 'C13':
            hit = any(k in d for k in ('pos', 'msg', 'output')) or ('crash' in d and not e.ok)
        if hit:
            out.append((text, d))
    return out


def _task(a):
    prop, fam, n, i, parts, seed, exe, tmp, focus, limit = a
    t = time.time()
    real = lambda texts: run.run_driver(exe, [x.encode('latin-1') for x in texts], tmp, 1)
    cases = []
    seen = set()
    gen = F.FAMS[fam](seed, n, i, parts) if focus is None else F.focus(fam, seed, n, i, parts, focus)
    for c in gen:
        key = (c[0], repr(c[1]) if fam in ('int', 'float') else 0)
        if key in seen:
            continue
        seen.add(key)
        cases.append(c)
        if limit and time.time() - t > limit:
            break
    acts = real([c[0] for c in cases])
    items = []
    for c, act in zip(cases, acts):
        e = oracle.assemble(c[0])
        items.append((c[0], c[1], e, act, F.diffs(e, act)))
    tool = os.path.join(os.path.dirname(exe), 'nxas')
    v = judge(prop, fam, items, real, lambda t: run.run_cli(tool, t.encode('latin-1'), tmp))
    samples = [x[0] for x in items[len(items) // 2:len(items) // 2 + 2]]
    return fam, len(items), sum(1 for x in items if x[2].ok), sum(1 for x in items if x[4]), v[:20], samples


def search(prop, exe, tmp, seed=1, mult=1.0, fams=None, focus=None, limit=None):
    """-> (violations [(text, what)], stats {fam: (n, accepted, differing)}, samples)"""
    fams = PLAN[prop] if fams is None else fams
    jobs = [(prop, f, max(1, int(SIZE[f] * mult)), i, 8, seed, exe, tmp, focus, limit) for i in range(8) for f in fams]
    out, stats, samples = [], {}, []
    with Pool(8) as p:
        for fam, n, ok, nd, v, s in p.imap_unordered(_task, jobs):
            st = stats.setdefault(fam, [0, 0, 0])
            st[0] += n
            st[1] += ok
            st[2] += nd
            out += v
            samples += s[:1]
    out.sort(key=lambda x: (len(x[0]), x[0]))
    return out, stats, samples[:6]


def confirm(prop, tool, tmp, text, what):
    """the same input through the real executable; -> description or None"""
    e = oracle.assemble(text)
    a = run.run_cli(tool, text.encode('latin-1'), tmp)
    if a.status == 'reject':
        a2words = a.words
    d = F.diffs(e, a)
    if d:
        return {'input': text, 'expected': describe(e), 'actual': describe_out(a), 'difference': {k: lit(v) for k, v in d.items()}}
    return None


def describe(e):
    if e.ok:
        return {'words': ['%016X' % w for w in e.words]}
    return {'rejected at': ('%d:%d' % (e.pos[0] + 1, e.pos[1] + 1)) if e.pos else 'no position', 'why': str(e.why)}


def describe_out(a):
    return {'status': a.status, 'words': ['%016X' % w for w in a.words[:64]], 'stderr': a.plain[-600:]}


# ---------------------------------------------------------------- command line
def cli_cases(tool, tmp):
    """[(what, ok?)] of command lines run in a scratch directory"""
    out = []
    n = [0]

    def case(name, args, want, files=None, pre=None, want_bytes=None, keep=None, setup=None):
        n[0] += 1
        d = tempfile.mkdtemp(dir=tmp)
        try:
            for f, b in (files or {}).items():
                open(os.path.join(d, f), 'wb').write(b)
            if setup:
                setup(d)
            try:
                r = subprocess.run([tool] + args, cwd=d, env=run.ENV, capture_output=True, timeout=60)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = -9, b'timeout'
            if rc != want:
                out.append((name, args, 'exit status %d instead of %d; stderr %r' % (rc, want, err[-300:])))
                return
            if want == 1:
                plain = err.decode('latin-1')
                if plain.count('\n') != 1 or 'error' not in plain:
                    out.append((name, args, 'diagnostic is not one line: %r' % err[-300:]))
                for f in os.listdir(d):
                    if f not in (files or {}) and f != 'ro' and f != 'dir':
                        out.append((name, args, 'created %s' % f))
                for f, b in (files or {}).items():
                    if open(os.path.join(d, f), 'rb').read() != b:
                        out.append((name, args, 'changed %s' % f))
            elif want_bytes is not None:
                p = os.path.join(d, want_bytes[0])
                got = open(p, 'rb').read() if os.path.exists(p) else None
                if got != want_bytes[1]:
                    out.append((name, args, 'output file holds %s instead of %s' %
                                (None if got is None else '%d bytes %s' % (len(got), got[:400].hex()), '%d bytes %s' % (len(want_bytes[1]), want_bytes[1][:400].hex()))))
                if (files or {}) and err:
                    out.append((name, args, 'stderr %r on success' % err[-200:]))
                for f, b in (files or {}).items():
                    if f != want_bytes[0] and open(os.path.join(d, f), 'rb').read() != b:
                        out.append((name, args, 'changed %s' % f))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    progs = ['', 'NOP;\n', 'MOV R0, R1;\nEXIT;', 'NOP;' * 7, 'MOV32I R0, 0x0A0D1A00;\nMOV32I R1, 0xFF00FF1A;\n', '.dksh compute\nmain:\nNOP;\n',
             ' ' * 5000 + 'EXIT;\n' * 400, 'EXIT;\n' * 6143, 'MOV R1, R2;\n' * 6144, 'EXIT;\n' * 30000]
    bs = []
    for p in progs:
        e = oracle.assemble(p)
        bs.append(struct.pack('<%dQ' % len(e.words), *e.words))
    for k, (p, b) in enumerate(zip(progs, bs)):
        f = {'in': p.encode()}
        case('input first', ['in', '-o', 'out'], 0, f, want_bytes=('out', b))
        case('output first', ['-o', 'out', 'in'], 0, f, want_bytes=('out', b))
        g = dict(f)
        g['out'] = b'x' * 5000
        case('existing output is replaced', ['in', '-o', 'out'], 0, g, want_bytes=('out', b))
    f = {'in': b'NOP;\n', 'in2': b'EXIT;\n'}
    b = bs[1]
    case('no arguments', [], 1, f)
    case('no output', ['in'], 1, f)
    case('no input', ['-o', 'out'], 1, f)
    case('-o without a name', ['in', '-o'], 1, f)
    case('only -o', ['-o'], 1, f)
    case('two inputs', ['in', 'in2', '-o', 'out'], 1, f)
    case('two inputs around -o', ['in', '-o', 'out', 'in2'], 1, f)
    case('two inputs after -o', ['-o', 'out', 'in', 'in2'], 1, f)
    case('the same input twice', ['in', 'in', '-o', 'out'], 1, f)
    case('two outputs', ['in', '-o', 'out', '-o', 'out2'], 1, f)
    case('two outputs first', ['-o', 'out', '-o', 'out2', 'in'], 1, f)
    case('the same output twice', ['-o', 'out', 'in', '-o', 'out'], 1, f)
    case('second -o without a name', ['in', '-o', 'out', '-o'], 1, f)
    case('three inputs', ['in', 'in2', 'in'], 1, f)
    case('missing input file', ['nofile', '-o', 'out'], 1, f)
    case('missing input directory', ['no/file', '-o', 'out'], 1, f)
    case('output in a missing directory', ['in', '-o', 'no/out'], 1, f)
    case('output is a directory', ['in', '-o', 'dir'], 1, f, setup=lambda d: os.mkdir(d + '/dir'))
    if os.path.exists('/dev/full'):
        case('full device', ['in', '-o', '/dev/full'], 1, f)
        case('full device, long program', ['in', '-o', '/dev/full'], 1, {'in': b'NOP;\n' * 20000})
        case('full device, output first', ['-o', '/dev/full', 'in'], 1, f)
    case('the output may be named -o', ['in', '-o', '-o'], 0, f, want_bytes=('-o', b))
    case('output called like an input', ['in', '-o', 'in2'], 0, f, want_bytes=('in2', b))
    case('input name with a dash', ['-in', '-o', 'out'], 0, {'-in': b'NOP;\n'}, want_bytes=('out', b))
    case('input named -output', ['-output', '-o', 'out'], 0, {'-output': b'NOP;\n'}, want_bytes=('out', b))
    case('input named o', ['o', '-o', 'out'], 0, {'o': b'NOP;\n'}, want_bytes=('out', b))
    case('input named --', ['--', '-o', 'out'], 0, {'--': b'NOP;\n'}, want_bytes=('out', b))
    case('rejected program', ['in', '-o', 'out'], 1, {'in': b'FOO;\n'})
    case('rejected program keeps an existing output', ['in', '-o', 'out'], 1, {'in': b'NOP;\nFOO;\n', 'out': b'old contents'})
    case('rejected late keeps an existing output', ['in', '-o', 'out'], 1, {'in': b'NOP;\n' * 50 + b'BRA nowhere;\n', 'out': b'old contents'})
    case('rejected container keeps an existing output', ['in', '-o', 'out'], 1, {'in': b'.dksh compute\nNOP;\n', 'out': b'old'})
    case('missing input keeps an existing output', ['nofile', '-o', 'out'], 1, {'out': b'old'})
    case('two inputs keep an existing output', ['in', 'in2', '-o', 'out'], 1, {'in': b'NOP;', 'in2': b'NOP;', 'out': b'old'})
    case('input is a directory', ['dir', '-o', 'out'], 1, f, setup=lambda d: os.mkdir(d + '/dir'))
    case('input is a directory, output first', ['-o', 'out', 'dir'], 1, f, setup=lambda d: os.mkdir(d + '/dir'))
    case('empty input name', ['', '-o', 'out'], 1, f)
    case('empty output name', ['in', '-o', ''], 1, f)
    case('empty input name after an input', ['in', '', '-o', 'out'], 1, f)
    for size in (511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 5):
        case('input of %d bytes' % size, ['in', '-o', 'out'], 0, {'in': b' ' * (size - 4) + b'NOP;'}, want_bytes=('out', b))
        case('bad input of %d bytes' % size, ['in', '-o', 'out'], 1, {'in': b' ' * (size - 1) + b'!'})
    for name in ('n' * 100, 'n' * 255, 'd/' + 'n' * 255, ' in', '%s%s%n', 'in.s'):
        mk = (lambda d: os.mkdir(d + '/d')) if '/' in name else None
        if mk is None:
            case('name of %d bytes' % len(name), [name, '-o', 'out'], 0, {name: b'NOP;\n'}, want_bytes=('out', b))
            case('rejected, name of %d bytes' % len(name), [name, '-o', 'out'], 1, {name: b'NOP R0;\n'})
            case('output name of %d bytes' % len(name), ['in', '-o', name], 0, {'in': b'NOP;\n'}, want_bytes=(name, b)) if name != 'in' else None
        case('missing file, name of %d bytes' % len(name), [name + '/x', '-o', 'out'], 1, {})
    case('missing file, very long name', ['x/' * 1500 + 'x', '-o', 'out'], 1, {})
    case('no directory is created', ['in', '-o', 'a/b/c'], 1, f)
    return out, n[0]
