"""Loads isa.txt: the golden instruction forms."""
import os
from .operands import make, Spec, parse_args


class Row:
    __slots__ = ('opcode', 'nopred', 'mnemonic', 'keys', 'n', 'specs', 'mask')

    def __repr__(self):
        return 'row %d %s %016X' % (self.n, self.mnemonic, self.opcode)


def load():
    rows = []
    for line in open(os.path.join(os.path.dirname(__file__), 'isa.txt')):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        op, np, mn, ops = [x.strip() for x in line.split('|', 3)]
        r = Row()
        r.opcode = int(op, 16)
        r.nopred = np == 'NP'
        r.mnemonic = mn
        r.keys = [k if '<' not in k else k for k in parse_args_keys(ops)]
        r.n = len(rows)
        rows.append(r)
    return rows


def parse_args_keys(s):
    return [str(a) for a in parse_args(s)]


def by_mnemonic(rows):
    d = {}
    for r in rows:
        d.setdefault(r.mnemonic, []).append(r)
    return d
