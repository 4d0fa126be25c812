#!/usr/bin/env python3
"""lists planted bugs whose changed lines stem from our own fix commits"""
import os, re, subprocess
R = '/repo'
own = set(subprocess.run(['git', '-C', R, 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines())
own = {l.split()[0] for l in own if l.split(' ', 1)[1].startswith('fix:')}
for d in sorted(os.listdir('/verif/seeded')):
    cur = None
    tot = mine = 0
    for l in open('/verif/seeded/%s/patch.diff' % d):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', R, 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), '--', cur], capture_output=True, text=True).stdout.split()[0].lstrip('^')
            tot += 1
            mine += any(h.startswith(b) for h in own)
            n += 1
        elif l.startswith(' '):
            n += 1
    print(d, tot, mine, '<-- ours' if mine and mine == tot else '')
