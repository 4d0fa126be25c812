#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Re-extracts the program from /repo, discharges every proof obligation of the property, replays
what fails (and a fixed conformance sample) against the real code, writes evidence/<property>.json.
"""
import argparse
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)

from proofs import units as U, pool            # noqa: E402
from replay import families as F, judge as J, run  # noqa: E402
from vcg.engine import Unsupported             # noqa: E402
from vcg import common                         # noqa: E402
import trusted                                 # noqa: E402

TAG = {'C01': 'encoding'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    prop = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='nxas-verif-')
    try:
        rc = run_check(prop, tier, seed, tmp, t0, a.verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run_check(prop, tier, seed, tmp, t0, verbose):
    built = {}

    def build():
        try:
            os.mkdir(tmp + '/b')
            built['ok'] = run.build(tmp + '/b')
        except run.BuildError as x:
            built['err'] = str(x)
    th = threading.Thread(target=build)
    th.start()
    notes = []
    units = []
    env = None
    try:
        os.mkdir(tmp + '/ir')
        env = U.Env(tmp + '/ir', tier)
        notes += env.notes
        units = [u for u in U.all_units(env) if prop in u.props]
    except common.Extraction as x:
        notes.append('extraction failed: %s' % x)
    except Unsupported as x:
        notes.append('extraction failed: %s' % x)
    th.join()
    if 'err' in built:
        print('check: /repo does not build: %s' % built['err'], file=sys.stderr)
        return 2
    exe, tool = built['ok']
    # ---- proof
    units.sort(key=lambda u: -u.cost)
    reps = pool.run_units([(u.name, u.fn) for u in units], int(os.environ.get('NXAS_JOBS', '8')), max([u.seconds for u in units], default=60) * (3 if tier == 'thorough' else 1),
                          budget=520 if tier == 'quick' else 3000,
                          groups={u.name: u.group for u in units if u.group})
    discharged = 0
    failed, gaps = [], []
    for u in units:
        r = reps[u.name]
        rx = re.compile(u.props[prop])
        discharged += sum(n for o, n in r.obligations.items() if rx.search(o))
        bad = [f for f in r.failures if rx.search(f[0])]
        if r.status == 'unsupported':
            gaps.append((u, r, r.why))
        elif bad:
            if any(f[1] == 'refuted' for f in bad) and u.precise and not r.invariants and not r.bounded:
                failed.append((u, r, bad))
            else:
                gaps.append((u, r, '; '.join('%s (%s)' % (f[0], f[1]) for f in bad[:3])))
        elif r.bounded:
            gaps.append((u, r, r.bounded))
    missing = U.missing(prop, env, units) if env is not None else ['everything: extraction failed']
    # ---- conformance sample and replay
    viol = []
    replays = []
    stats, samples = {}, []
    mult = 1.0 if tier == 'quick' else 8.0
    seeds = [seed] if tier == 'quick' else [seed, seed + 1, seed + 2]
    for sd in seeds:
        v, s, sm = J.search(prop, exe, tmp, sd, mult)
        viol += v
        samples += sm
        merge(stats, s)
    ncli = 0
    cli_bad = []
    if prop in ('C13', 'C14'):
        cli_bad, ncli = J.cli_cases(tool, tmp)
        if prop == 'C13':
            cli_bad = [c for c in cli_bad if 'reject' in c[0]]
    if (failed or gaps or missing) and not viol and not cli_bad:
        foc = {'keys': sorted({k for u, *_ in failed + gaps for k in u.keys}),
               'mnemonics': sorted({m for u, *_ in failed + gaps for m in u.mnemonics} | ({m for m, _ in env.odd} if env else set())),
               'ints': model_ints([r for _, r, _ in failed])}
        texts = [t for _, r, _ in failed + gaps for t in r.texts][:60]
        if texts:
            F.CEX[:] = texts
            v, s, _ = J.search(prop, exe, tmp, seed, fams=['cex'])
            viol += v
            merge(stats, s, 'counterexample ')
        t1 = time.time()
        for rnd in range(0 if viol else 3 if tier == 'quick' else 8):
            if J.PLAN[prop]:
                v, s, _ = J.search(prop, exe, tmp, seed + 100 + rnd, 1.5 * (rnd + 1), limit=40)
                viol += v
                merge(stats, s)
                if foc['keys'] or foc['mnemonics']:
                    fams = ['int'] if prop == 'C03' else ['float'] if prop == 'C04' else ['guard'] if prop == 'C07' else ['forms']
                    J.SIZE['focus'] = 300
                    v, s, _ = J.search(prop, exe, tmp, seed + 200 + rnd, 20.0, fams=fams, focus=foc, limit=40)
                    viol += v
                    merge(stats, s, 'focus ')
            if viol or time.time() - t1 > 150:
                break
    # ---- confirmation against the real executable
    found = None
    for text, what in viol[:60]:
        c = J.confirm(prop, tool, tmp, text, what)
        if c:
            found = c
            break
        if prop == 'C09':
            found = {'input': text, 'difference': repr(what), 'note': 'the result depends on what the process assembled before'}
            break
    if cli_bad and not found:
        c = cli_bad[0]
        found = {'command line': [os.path.basename(tool)] + c[1], 'case': c[0], 'difference': c[2]}
    status = 0
    lines = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    if os.path.exists(rpath):
        os.remove(rpath)
    obl = [{'unit': u.name, 'obligation': f[0], 'status': f[1], 'detail': f[2]} for u, r, bad in failed for f in bad[:8]]
    if found or failed:
        rec = {'property': prop, 'failing input': found, 'failed obligations': obl,
               'undecided': [{'unit': u.name, 'why': why} for u, r, why in gaps],
               'verifier output': [{'unit': u.name, 'model': r.vals} for u, r, _ in failed][:5],
               'how to replay': 'write "input" to a file and run nxas <file> -o out.bin (or the listed command line)'}
        json.dump(rec, open(rpath, 'w'), indent=1, default=str)
        status = 1
        tail = '' if found else ' no-failing-input-found'
        for o in obl[:5]:
            print('failed obligation: %s [%s]' % (o['obligation'], o['status']))
        if found:
            print('failing input: %r' % found.get('input', found.get('command line')))
        print('VIOLATION property=%s replay=%s%s' % (prop, rpath, tail))
    # ---- evidence
    bounded = ['%s: %s' % (u.name, why) for u, r, why in gaps] + missing + notes
    evidence(prop, tier, seed, t0, units, reps, discharged, obl, bounded, stats, samples, ncli, status, found)
    if verbose:
        for b in bounded:
            print('bounded:', b)
        for n, r in sorted(reps.items(), key=lambda x: -x[1].wall_s)[:6]:
            print('%-40s %-11s %6.1fs %6d' % (n, r.status, r.wall_s, sum(r.obligations.values())))
        print(stats)
    print('%s: %d obligations discharged over %d units, %d undecided (bounded stand-in), %d texts replayed, %.0f s' %
          (prop, discharged, len(units), len(bounded), sum(s[0] for s in stats.values()) + ncli, time.time() - t0))
    return status


def merge(stats, s, prefix=''):
    for k, v in s.items():
        st = stats.setdefault(prefix + k, [0, 0, 0])
        for i in range(3):
            st[i] += v[i]


def model_ints(reps):
    out = set()
    for r in reps:
        for v in r.vals.values():
            for m in re.findall(r'\b\d{1,20}\b', v):
                x = int(m)
                if x < 1 << 64:
                    out.add(x - (1 << 64) if x >> 63 else x)
    return sorted(out)[:200]


def evidence(prop, tier, seed, t0, units, reps, discharged, failed, bounded, stats, samples, ncli, status, found):
    fns, contracts = set(), set()
    inv = {}
    solver = 0.0
    nq = 0
    for r in reps.values():
        fns |= r.functions
        contracts |= r.contracts
        solver += r.solver_s
        nq += r.nchecks
        for f, h, names in r.invariants:
            inv.setdefault(f, len(names))
    complete = not bounded
    n = sum(s[0] for s in stats.values()) + ncli
    cov = {
        'obligations': discharged + len(failed) + len(bounded),
        'discharged': discharged,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': trusted.BASE + trusted.PROP.get(prop, []),
        'back_end': 'z3 %s (python API), conditions generated by vcg/engine.py from clang-18 LLVM IR of /repo' % z3v(),
        'proof_units': {u.name: {'status': reps[u.name].status, 'obligations': sum(reps[u.name].obligations.values())} for u in units},
        'functions_under_contract': sorted(fns)[:600],
        'contracts_used_at_calls': sorted(contracts)[:200],
        'loop_invariants': inv,
        'solver_queries': nq,
        'solver_s': round(solver, 2),
        'undecided_or_bounded': bounded,
        'failed_obligations': failed,
        'replayed': {k: {'texts': v[0], 'accepted': v[1], 'differing': v[2]} for k, v in stats.items()},
        'command_lines': ncli,
        'samples': samples[:5],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': trusted.BASE + trusted.PROP.get(prop, []),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if status else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
