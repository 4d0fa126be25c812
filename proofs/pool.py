"""Runs proof units in parallel; a unit is (name, function()) -> Report."""
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import time
import traceback


class Report:
    """what a proof unit established (picklable)"""

    def __init__(self, name):
        self.name = name
        self.status = 'proved'     # proved | refuted | unknown | unsupported
        self.obligations = {}
        self.failures = []         # (obligation, status, detail)
        self.why = ''
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.nchecks = 0
        self.functions = set()
        self.contracts = set()
        self.invariants = []
        self.bounded = None
        self.vals = {}             # concrete values the counterexample mentions
        self.texts = []            # source texts the counterexamples describe
        self.tags = {}
        self.meta = {}

    def take(self, eng):
        for k, v in eng.obligations.items():
            self.obligations[k] = self.obligations.get(k, 0) + v
        self.solver_s += eng.solver_time
        self.nchecks += eng.nchecks
        self.functions |= set(eng.called)
        self.contracts |= set(eng.used_contracts)
        self.invariants += eng.invariants_used
        for f in eng.failures:
            self.failures.append((f.name, f.status, str(f.detail)[:300]))
            if f.status == 'refuted':
                self.status = 'refuted'
                if f.model is not None:
                    self.vals.update(model_values(f.model))
                    if len(self.texts) < 24:
                        self.texts += [t for t in model_texts(f.model) if t not in self.texts]
            elif self.status == 'proved':
                self.status = 'unknown'
        if eng.bounded_hit:
            self.bounded = 'loops unrolled up to %s iterations' % eng.force_unroll
        return self


def model_values(m):
    out = {}
    try:
        for d in m.decls()[:400]:
            s = str(m[d])
            if len(s) < 4000:
                out[str(d)] = s
    except Exception:
        pass
    return out


def model_texts(m):
    """the text a counterexample describes, when it is a short one"""
    import z3
    try:
        d = {str(x): x for x in m.decls()}
        if 'char_at' not in d or 'text_len' not in d:
            return []
        n = m[d['text_len']].as_long()
        if not 0 < n <= 24:
            return []
        cs = [m.eval(d['char_at'](z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n)]
        return [''.join(chr(c or 32) for c in cs)]
    except Exception:
        return []


def _child(conn, fn, name, seconds):
    from vcg.engine import Unsupported
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t = time.time()
    rep = Report(name)
    try:
        r = fn()
        if r is not None:
            rep = r
            rep.name = name
    except Unsupported as x:
        rep.status, rep.why = 'unsupported', str(x)[:500]
    except MemoryError:
        rep.status, rep.why = 'unsupported', 'memory limit'
    except Exception:
        rep.status, rep.why = 'unsupported', 'verifier error: ' + traceback.format_exc()[-800:]
    rep.wall_s = time.time() - t
    try:
        conn.send(rep)
    except Exception as x:
        r2 = Report(name)
        r2.status, r2.why = 'unsupported', 'report: %s' % x
        conn.send(r2)
    conn.close()
    os._exit(0)


def run_units(units, jobs=8, seconds=120, budget=None, groups=None, waste=300):
    """units: [(name, fn)]; groups: {name: group}; a group that has spent waste seconds on units
    without a verdict is not continued; longest first is the caller's business.  -> {name: Report}"""
    ctx = mp.get_context('fork')
    todo = list(units)
    live = {}
    out = {}
    t0 = time.time()
    groups = groups or {}
    spent = {}
    while todo or live:
        while todo and len(live) < jobs:
            name, fn = todo.pop(0)
            g = groups.get(name)
            if (budget is not None and time.time() - t0 > budget) or (g and spent.get(g, 0) > waste):
                r = Report(name)
                r.status, r.why = 'unsupported', 'time budget exhausted before this unit'
                out[name] = r
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, name, seconds))
            p.start()
            b.close()
            live[name] = (p, a, time.time())
        if not live:
            break
        mp.connection.wait([x[1] for x in live.values()], timeout=1.0)
        for name, (p, a, t) in list(live.items()):
            if a.poll():
                try:
                    out[name] = a.recv()
                except EOFError:
                    r = Report(name)
                    r.status, r.why = 'unsupported', 'verifier process ended'
                    out[name] = r
                p.join()
                a.close()
                del live[name]
                if out[name].status == 'unsupported':
                    g = groups.get(name)
                    spent[g] = spent.get(g, 0) + out[name].wall_s
            elif time.time() - t > seconds:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                a.close()
                r = Report(name)
                r.status, r.why = 'unsupported', 'no verdict within %d s' % seconds
                r.wall_s = seconds
                out[name] = r
                del live[name]
    return out
