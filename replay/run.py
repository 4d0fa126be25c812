"""Builds the real code from /repo and runs it on given texts."""
import glob
import os
import re
import shutil
import struct
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('NXAS_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CXX = ['g++', '-std=c++20', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/include', '-I' + REPO + '/src']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr']


class BuildError(Exception):
    pass


class Outcome:
    __slots__ = ('status', 'words', 'err')
    # status: 'ok' | 'reject' | 'exit?' | 'crash' | 'exception'

    @property
    def pos(self):
        m = re.match(r'input\.sass:(\d+):(\d+): ', self.plain)
        return (int(m.group(1)) - 1, int(m.group(2)) - 1) if m else None

    @property
    def plain(self):
        return re.sub(r'\x1b\[[0-9;]*m', '', self.err.decode('latin-1'))


def sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def build(tmp, san=True, cli=True):
    """-> (driver, cli executable)"""
    objs = []

    def cc(a):
        src, obj, flags = a
        r = subprocess.run(CXX + flags + ['-c', src, '-o', obj], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-1500:])
        return obj
    fl = SAN if san else []
    jobs = [(s, os.path.join(tmp, os.path.basename(s) + '.o'), fl) for s in sources()]
    jobs.append((HERE + '/driver.cpp', tmp + '/driver.o', fl))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, jobs))
    mains = [o for o in objs if not o.endswith('driver.o') and
             re.search(r' T main$', subprocess.run(['nm', o], capture_output=True, text=True).stdout, re.M)]
    lib = [o for o in objs if o not in mains and not o.endswith('driver.o')]
    exe, tool = tmp + '/driver', tmp + '/nxas'
    r = subprocess.run(['g++'] + fl + ['-Wl,--wrap=exit', '-o', exe, tmp + '/driver.o'] + lib, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-1500:])
    r = subprocess.run(['g++'] + fl + ['-o', tool] + mains + lib, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-1500:])
    return exe, tool


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=0',
           UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')
NAMES = {0: 'ok', 1: 'reject', 2: 'exit?', 3: 'crash', 4: 'exception'}


def run_driver(exe, texts, tmp, jobs=8):
    """texts: list of bytes -> list of Outcome"""
    if not texts:
        return []
    n = max(1, min(jobs, len(texts) // 50 or 1))
    size = (len(texts) + n - 1) // n
    chunks = [texts[i:i + size] for i in range(0, len(texts), size)]

    def one(ch):
        d = tempfile.mkdtemp(dir=tmp)
        inp, out = d + '/in', d + '/out'
        with open(inp, 'wb') as f:
            for t in ch:
                f.write(struct.pack('<I', len(t)) + t)
        open(out, 'wb').close()
        subprocess.run([exe, inp, out], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        data = open(out, 'rb').read()
        res = []
        p = 0
        while p < len(data):
            o = Outcome()
            o.status = NAMES[data[p]]
            nw, = struct.unpack_from('<I', data, p + 1)
            o.words = list(struct.unpack_from('<%dQ' % nw, data, p + 5))
            p += 5 + 8 * nw
            ne, = struct.unpack_from('<I', data, p)
            o.err = data[p + 4:p + 4 + ne]
            p += 4 + ne
            res.append(o)
        shutil.rmtree(d)
        if len(res) != len(ch):
            raise BuildError('driver produced %d of %d results' % (len(res), len(ch)))
        return res
    with ThreadPoolExecutor(n) as ex:
        return [o for c in ex.map(one, chunks) for o in c]


def run_cli(tool, text, tmp):
    """the executable on one text -> Outcome (words from the output file)"""
    d = tempfile.mkdtemp(dir=tmp)
    open(d + '/input.sass', 'wb').write(text)
    o = Outcome()
    try:
        r = subprocess.run([tool, 'input.sass', '-o', 'out.bin'], cwd=d, env=ENV, capture_output=True, timeout=60)
        rc, o.err = r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, o.err = -9, b'timeout'
    o.status = {0: 'ok', 1: 'reject'}.get(rc, 'crash' if rc < 0 or rc >= 128 else 'exit?')
    o.words = []
    if os.path.exists(d + '/out.bin'):
        b = open(d + '/out.bin', 'rb').read()
        o.words = list(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    shutil.rmtree(d)
    return o
