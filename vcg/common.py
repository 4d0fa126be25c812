"""Extraction: /repo's current sources -> one LLVM IR module (regenerated on every run)."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .ir import Module

REPO = os.environ.get('NXAS_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LLVM = '/usr/lib/llvm-18/bin'
FLAGS = ['-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
         '-D_GLIBCXX_ASSERTIONS', '-w',
         '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,'
         'unreachable,return', '-fsanitize-trap=all',
         '-I' + REPO + '/include', '-I' + REPO + '/src']

PROBE = r'''
#include <cstddef>
#include "context.h"
#include "token.h"
#include "opcode.h"
#define OFF(T, f) extern const unsigned long off_##T##_##f = offsetof(T, f);
OFF(context, filename) OFF(context, text) OFF(context, text_begin) OFF(context, line) OFF(context, column) OFF(context, pc)
OFF(context, labels) OFF(context, type) OFF(context, is_dksh) OFF(context, entrypoint)
OFF(context, num_gprs) OFF(context, local_mem_size) OFF(context, second_entrypoint)
OFF(context, second_num_gprs) OFF(context, early_fragment_tests)
OFF(context, post_depth_coverage) OFF(context, persample_invocation)
OFF(context, block_dimensions) OFF(context, shared_mem_size) OFF(context, num_barriers)
OFF(token, filename) OFF(token, data) OFF(token, type) OFF(token, line) OFF(token, column)
OFF(opcode, value) OFF(opcode, reuse) OFF(opcode, sched)
extern const unsigned long size_context = sizeof(context);
extern const unsigned long size_token = sizeof(token);
extern const unsigned long size_opcode = sizeof(opcode);
'''


class Extraction(Exception):
    pass


def work_dir():
    return tempfile.mkdtemp(prefix='nxas-verif-')


def sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def build_module(tmp):
    srcs = sources()

    def one(src):
        out = os.path.join(tmp, '%s.ll' % os.path.relpath(src, REPO).replace('/', '_'))
        r = subprocess.run([CLANG] + FLAGS + ['-S', '-emit-llvm', src, '-o', out],
                           capture_output=True, text=True)
        if r.returncode:
            raise Extraction('clang: ' + r.stderr[-2000:])
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    allp = os.path.join(tmp, 'all.ll')
    r = subprocess.run([LLVM + '/llvm-link', '-S', '-o', allp] + outs, capture_output=True, text=True)
    if r.returncode:
        raise Extraction('llvm-link: ' + r.stderr[-2000:])
    return Module(open(allp).read())


def layout(tmp):
    """offsets of the structures the contracts talk about, from the compiler"""
    p = os.path.join(tmp, 'probe.cpp')
    probe = PROBE
    for _ in range(30):
        open(p, 'w').write(probe)
        r = subprocess.run([CLANG] + FLAGS + ['-fno-access-control', '-Winvalid-offsetof', '-S', '-ferror-limit=0',
                                              '-emit-llvm', p, '-o', p + '.ll'],
                           capture_output=True, text=True)
        if not r.returncode:
            break
        # members that are not there (any more) are left out; what needs them stays undecided
        gone = re.findall(r"no member named '(\w+)' in '(\w+)'", r.stderr)
        if not gone:
            raise Extraction('layout probe: ' + r.stderr[-2000:])
        for m, t in gone:
            probe = probe.replace('OFF(%s, %s)' % (t, m), '')
    lay = {}
    for m in re.finditer(r'@(off|size)_(\w+) = .*constant i64 (\d+)', open(p + '.ll').read()):
        lay[m.group(1) + '_' + m.group(2)] = int(m.group(3))
    return lay
