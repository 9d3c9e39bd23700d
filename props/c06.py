"""C06: multi-start local search returns the best of all its trials."""
import math
import random

import numpy as np
import scipy.optimize
from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer
from qiskit_optimization.infinity import INFINITY

from sim import gen, oracle
from sim.core import SimFault, close, sim_fault
from sim.seams import patch_everywhere

RUNS = {"quick": 2600, "thorough": 100000}
BATCH = 60
RULE = ("one run = one seeded continuous program and 1-6 trials; every trial's local search is decided by the simulator (improving, "
        "stalling, diverging, leaving the feasible set, raising) or is the real SLSQP/COBYLA; non-trivial when at least two trials "
        "had different objectives; distinct by digest of the full event log")
REAL = ["MultiStartOptimizer", "SlsqpOptimizer", "CobylaOptimizer", "scipy local searches in part of the runs"]
STUB = ["the local search (drawn outcomes)", "ambient random generator seeds"]
STATE_MEASURE = "hash of (optimizer, trials, index of best trial, outcome kinds, sense, status)"
ASSUMPTIONS = ["an error of a trial may abort the whole solve"]


class SimLocal(MultiStartOptimizer):
    def __init__(self, fn, trials, clip):
        super().__init__(trials, clip)
        self.fn = fn

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        return self.multi_start_solve(self.fn, problem)


def search_model(sim, spec, seed, func, ineq, eq, bounds, grad):
    """The program one trial searches, as handed to the local solver, against the caller's program."""
    rnd = random.Random(seed)
    n = len(spec.vars)
    pts = []
    for _ in range(24):
        x = []
        for _, _, lb, ub in spec.vars:
            lo, hi = max(lb, -6), min(ub, 6)
            c = rnd.randrange(8)
            if c == 0 and lb > -INFINITY:
                x.append(lb - rnd.choice([0, 0, 1]))
            elif c == 1 and ub < INFINITY:
                x.append(ub + rnd.choice([0, 0, 1]))
            elif lo <= hi:
                x.append(min(max(round(rnd.uniform(lo, hi) * 2) / 2, lo), hi))
            else:
                x.append(lb if lb > -INFINITY else ub)
        pts.append([float(v) for v in x])
    x0 = [0.0] * n
    ref = spec.sense * spec.f(x0)
    base = float(func(np.array(x0)))
    for p in pts:
        x = np.array(p)
        want = spec.sense * spec.f(p)
        got = float(func(x.copy()))
        scale = max(1.0, abs(want), abs(ref))
        sim.check(abs((got - base) - (want - ref)) <= 1e-7 * scale, "trial-searches-other-objective",
                  lambda: "at %r the local search is told %r, the program says %r" % (p, got, want))
        if grad is not None:
            g = np.asarray(grad(x.copy()), dtype=float).ravel()
            for i in range(n):
                up, dn = list(p), list(p)
                up[i] += 1
                dn[i] -= 1
                d = spec.sense * (spec.f(up) - spec.f(dn)) / 2     # exact for a quadratic
                sim.check(len(g) == n and abs(g[i] - d) <= 1e-6 * max(scale, abs(d)), "trial-searches-other-objective",
                          lambda: "slope %d at %r is %r, expected %r" % (i, p, g, d))
        if not all(isinstance(v, float) and v == v for v in p):
            continue
        told = True
        for c in ineq:
            told = told and bool(np.all(np.asarray(c(x.copy())) >= -1e-6))
        for c in eq:
            told = told and bool(np.all(np.abs(np.asarray(c(x.copy()))) <= 1e-6))
        for v, (lo, hi) in zip(p, bounds):
            told = told and not (lo is not None and v < lo - 1e-6) and not (hi is not None and v > hi + 1e-6)
        if spec.feasible(p, 1e-9):
            sim.check(told, "trial-searches-smaller-set", lambda: "%r is feasible, the local search may not go there" % (p,))
            sim.probe("search-set-feasible-point")
        elif not spec.feasible(p, 1e-3):
            sim.check(not told, "trial-searches-larger-set", lambda: "%r is infeasible, nothing keeps the local search out" % (p,))
            sim.probe("search-set-infeasible-point")


def run(sim):
    spec = gen.continuous(sim, max_vars=3 if not sim.chance(0.06) else 8)
    if sim.chance(0.08):
        # huge, near-infinite objectives are still ordered
        spec.const = sim.pick([1e19, -1e19])
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    trials = sim.pick([2, 1, 3, 4, 6]) if not sim.chance(0.04) else 14
    clip = sim.pick([100.0, 10.0, 7.5])
    which = sim.weighted([(5, "sim"), (3, "slsqp"), (2, "cobyla")])
    full_output = which == "slsqp" and sim.chance(0.5)
    fail_at = sim.draw(trials) if sim.chance(0.06) else None
    log = []    # (x0, x, rest, kind)

    def outcome(x0, real):
        i = len(log)
        sim.advance(1.0)
        if fail_at == i:
            log.append((list(x0), None, None, "raise"))
            sim.fault("local-search-exception")
            raise sim_fault(sim, "local search failed")
        kind = sim.weighted([(4, "point"), (2, "stall"), (1, "far"), (1, "inside")] + ([(4, "real")] if real else []))
        if kind == "real":
            x, rest = real()
        elif kind == "stall":
            x, rest = np.array(x0, dtype=float), ["stall%d" % i, i, 9, "stalled %d" % i]
            sim.fault("local-search-stall")
        elif kind == "far":
            x = np.array([float(sim.pick([1e5, -1e5, 50])) for _ in x0])
            rest = ["far%d" % i, i, 8, "diverged %d" % i]
            sim.fault("local-search-diverged")
        elif kind == "inside":
            x = np.array([min(max(0.0, v[2] if v[2] > -1e19 else -1.0), v[3]) + 0.25 for v in spec.vars])
            rest = ["in%d" % i, i, 0, "ok %d" % i]
        else:
            x = np.array([sim.rint(-8, 8) / 2 for _ in x0], dtype=float)
            rest = ["pt%d" % i, i, 0, "ok %d" % i]
            sim.fault("local-search-elsewhere")
        log.append((list(x0), [float(v) for v in x], rest, kind))
        sim.ev("trial", i, kind, [round(float(v), 6) for v in x])
        return x, rest

    real_slsqp, real_cobyla = scipy.optimize.fmin_slsqp, scipy.optimize.fmin_cobyla

    mseed = sim.draw(1 << 20)

    def fake_slsqp(func, x0, *a, **k):
        if not a and not log and not (set(k) & {"f_eqcons", "f_ieqcons", "args"}):
            bounds = k.get("bounds", ())
            bounds = list(zip(bounds.lb, bounds.ub)) if hasattr(bounds, "lb") else list(bounds)
            search_model(sim, spec, mseed, func, list(k.get("ieqcons", ())), list(k.get("eqcons", ())), bounds, k.get("fprime"))

        def real():
            k2 = dict(k)
            k2["full_output"] = True
            out = real_slsqp(func, x0, *a, **k2)
            return np.asarray(out[0]), list(out[1:])
        x, rest = outcome(np.array(x0), real)
        return (x, *rest) if k.get("full_output") else x

    def fake_cobyla(func, x0, *a, **k):
        cons = a[0] if len(a) == 1 else k.get("cons") if not a else None
        if cons is not None and not log and not k.get("args") and not k.get("consargs"):
            search_model(sim, spec, mseed, func, [cons] if callable(cons) else list(cons), [], [], None)

        def real():
            return np.asarray(real_cobyla(func, x0, *a, **k)), None
        return outcome(np.array(x0), real)[0]

    if which == "sim":
        opt = SimLocal(lambda x0: outcome(np.array(x0), None), trials, clip)
    elif which == "slsqp":
        opt = SlsqpOptimizer(trials=trials, clip=clip, full_output=full_output)
    else:
        opt = CobylaOptimizer(trials=trials, clip=clip)
    if sim.chance(0.2):
        opt.trials = trials
        opt.clip = clip
    for rep in range(1 + (sim.draw(5) == 4)):
        del log[:]
        try:
            with patch_everywhere(real_slsqp, fake_slsqp, (scipy.optimize,)), patch_everywhere(
                    real_cobyla, fake_cobyla, (scipy.optimize,)):
                res = opt.solve(problem)
        except SimFault:
            sim.check(log and log[-1][3] == "raise", "phantom-exception", "")
            continue
        except Exception:
            fs = [spec.sense * spec.f(t[1]) for t in log if t[1] is not None]
            if not any(f == f and f < INFINITY for f in fs):
                sim.probe("no-usable-trial")
                continue
            raise
        x = oracle.check_result(sim, spec, res, integral=False)
        sim.check(x is not None, "lost-solution", "")
        sim.ev("result", [round(v, 9) for v in x], res.status.name)
        if not log and which != "sim":
            sim.probe("local-search-not-intercepted")
            continue
        sim.check(not any(t[3] == "raise" for t in log), "exception-swallowed", "a trial raised but a result was returned")
        sim.check(len(log) == trials, "number-of-trials", lambda: "%d trials run, %d requested" % (len(log), trials))
        for i, (x0, _, _, _) in enumerate(log):
            for v, (nm, _, lb, ub) in zip(x0, spec.vars):
                lo = lb if lb > -INFINITY else -clip
                hi = ub if ub < INFINITY else clip
                sim.check(v == 0 if i == 0 else lo - 1e-9 <= v <= hi + 1e-9, "start-point",
                          lambda: "trial %d starts with %s=%r, range [%r,%r]" % (i, nm, v, lo, hi))
        fs = [spec.sense * spec.f(t[1]) for t in log]
        best = min(f for f in fs if f == f)
        sim.check(spec.sense * spec.f(x) <= best + 1e-9 * max(1.0, abs(best)), "not-the-best-trial",
                  lambda: "reported objective %r, trials %r (%s)" % (spec.f(x), [spec.sense * f for f in fs], "min" if spec.sense == 1 else "max"))
        mine = [t for t in log if all(close(a, b, 1e-12) for a, b in zip(t[1], x))]
        sim.check(mine, "answer-from-no-trial", lambda: "x=%r trials %r" % (x, [t[1] for t in log]))
        if full_output:
            sim.check(any(res.its == t[2][1] and res.imode == t[2][2] and res.smode == t[2][3] and (
                res.fx == t[2][0] or close(res.fx, t[2][0])) for t in mine), "details-of-other-trial",
                lambda: "its=%r smode=%r, trials with this point %r" % (res.its, res.smode, [t[2] for t in mine]))
        if which == "sim":
            sim.check(any(res.raw_results is t[2] or res.raw_results == t[2] for t in mine), "details-of-other-trial",
                      lambda: "raw_results %r" % (res.raw_results,))
        if len({round(f, 6) for f in fs}) > 1:
            sim.probe("nontrivial")
        sim.state(which, trials, fs.index(best), tuple(t[3] for t in log), spec.sense, res.status.name)
