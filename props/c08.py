"""C08: Goemans-Williamson reports real cuts and survives a failing SDP solver."""
import cvxpy
import numpy as np
from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer

from sim import gen, oracle
from sim.core import SimFault, close, sim_fault

RUNS = {"quick": 24000, "thorough": 600000}
BATCH = 200
RULE = ("one run = one seeded max-cut program (2-6 nodes, signed and fractional weights), option combination and random seed, solved 1-3 "
        "times; the semidefinite solver's behaviour at each call is drawn (healthy, inaccurate, rank deficient, indefinite, "
        "asymmetric, not-a-number, no solution, error); non-trivial when cuts were returned; distinct by digest of the event log")
REAL = ["GoemansWilliamsonOptimizer", "QuadraticProgram", "cvxpy modelling and solver in part of the runs", "numpy linear algebra"]
STUB = ["the semidefinite solver (drawn behaviour)", "ambient random generators (seeded per run)"]
STATE_MEASURE = "hash of (nodes, behaviour, unique, sorted, requested cuts, returned cuts, status)"
ASSUMPTIONS = ["programs are max-cut programs (the optimizer's documented input)"]

BEHAVIOURS = [(3, "real"), (5, "gram"), (3, "inaccurate"), (2, "indefinite"), (2, "asymmetric"), (2, "nan"), (2, "none"),
              (2, "solver-error"), (1, "dcp-error"), (1, "other-error"), (2, "rank-one")]


def maxcut(sim, nmax=6):
    s = gen.Spec()
    n = 2 + sim.draw(nmax - 1)
    names = sim.pick(gen.NAMES)
    s.name = "maxcut"
    s.vars = [(names[i], "b", 0, 1) for i in range(n)]
    s.sense = -1
    signed = sim.chance(0.3)
    uneven = sim.chance(0.3)
    scale = 1e-7 if sim.chance(0.1) else 1
    s.w = {}
    for i in range(n):
        for j in range(i + 1, n):
            if sim.chance(0.7):
                w = sim.rint(-4, 4) if signed else sim.rint(0, 4)
                if sim.draw(4) == 3:
                    w += 0.5
                if uneven and w:
                    w *= sim.pick([0.1, 0.37, 1.0 / 3])
                w *= scale
                if w:
                    s.w[(i, j)] = w
    for (i, j), w in s.w.items():
        s.lin[i] = s.lin.get(i, 0) + w
        s.lin[j] = s.lin.get(j, 0) + w
        s.quad[(i, j)] = -2 * w
    return s


def cut(s, x):
    return sum(w for (i, j), w in s.w.items() if round(x[i]) != round(x[j]))


class SimSdp:
    """Stands in for cvxpy.Problem.solve."""

    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.log = []
        self.real = cvxpy.Problem.solve

    def __enter__(self):
        outer = self

        def solve(problem, *a, **k):
            return outer.solve(problem, *a, **k)

        cvxpy.Problem.solve = solve
        return self

    def __exit__(self, *exc):
        cvxpy.Problem.solve = self.real
        return False

    def solve(self, problem, *a, **k):
        sim = self.sim
        how = self.plan(len(self.log))
        self.log.append(how)
        sim.ev("sdp", how)
        sim.advance(1.0 + sim.draw(5))
        var = [v for v in problem.variables() if len(v.shape) == 2]
        if how == "real" or len(var) != 1 or var[0].shape[0] != var[0].shape[1]:
            if how != "real":
                self.log[-1] = how = "real"
            return self.real(problem, *a, **k)
        var = var[0]
        n = var.shape[0]
        if how != "gram":
            sim.fault("sdp-" + how)
        if how == "none":
            problem._status = sim.pick(["infeasible", "unbounded", "infeasible_inaccurate"])
            for v in problem.variables():
                v.save_value(None)
            return float("-inf")
        if how == "solver-error":
            raise cvxpy.SolverError("simulated solver failure")
        if how == "dcp-error":
            raise cvxpy.DCPError("simulated")
        if how == "other-error":
            raise sim_fault(sim, "solver crashed")
        rank = 1 if how == "rank-one" else 1 + sim.draw(n)
        v = np.array([[float(sim.rint(-3, 3)) for _ in range(rank)] for _ in range(n)])
        v[:, 0] += 0.25
        v /= np.linalg.norm(v, axis=1)[:, None]
        m = v @ v.T
        if how == "inaccurate":
            e = np.array([[sim.rint(-9, 9) for _ in range(n)] for _ in range(n)]) * sim.pick([1e-6, 1e-4, 1e-2])
            m = m + (e + e.T) / 2
        elif how == "indefinite":
            m = m - sim.pick([0.3, 1.0, 2.0]) * np.identity(n)
        elif how == "asymmetric":
            e = np.array([[sim.rint(-9, 9) for _ in range(n)] for _ in range(n)]) * sim.pick([1e-6, 1e-3])
            m = m + e
        elif how == "nan":
            m = m.copy()
            if sim.chance(0.5):
                m[:] = np.nan
            else:
                i, j = sim.draw(n), sim.draw(n)
                m[i, j] = m[j, i] = sim.pick([np.nan, np.inf])
        problem._status = sim.pick(["optimal", "optimal_inaccurate"])
        var.save_value(m)
        return float(np.sum(m)) if how != "nan" else float("nan")


def judge(sim, spec, res, num_cuts, unique, sort):
    tol = 1e-9 * sum(abs(w) for w in spec.w.values())  # weights may be tiny as a whole

    def close(a, b, tol=tol):
        return abs(float(a) - b) <= tol

    x = oracle.check_result(sim, spec, res)
    sim.check(x is not None, "success-without-values", "")
    sim.check(res.status.name == "SUCCESS", "status", res.status.name)
    sim.check(close(res.fval, cut(spec, x)), "cut-value", lambda: "fval %r, cut weight %r" % (res.fval, cut(spec, x)))
    cuts = [tuple(int(round(float(v))) for v in s.x) for s in res.samples]
    sim.check(1 <= len(cuts) <= num_cuts, "number-of-cuts", lambda: "%d cuts, %d requested" % (len(cuts), num_cuts))
    for s, c in zip(res.samples, cuts):
        sim.check(len(c) == len(spec.vars) and all(v in (0, 1) and float(o) == v for v, o in zip(c, s.x)), "not-a-cut",
                  lambda: "%r" % (list(s.x),))
        sim.check(close(s.fval, cut(spec, c)), "sample-cut-value", lambda: "cut %r reported %r, weighs %r" % (c, s.fval, cut(spec, c)))
        sim.check(s.status.name == "SUCCESS", "sample-status", "")
    sim.check(close(sum(float(s.probability) for s in res.samples), 1.0, 1e-6), "sample-probability-total", "")
    if unique:
        canon = [c if c[0] == 0 else tuple(1 - v for v in c) for c in cuts]
        sim.check(len(set(canon)) == len(canon), "cuts-not-unique", lambda: "%r" % (cuts,))
    else:
        sim.check(len(cuts) == num_cuts, "cuts-missing", lambda: "%d of %d cuts" % (len(cuts), num_cuts))
    if sort:
        vals = [cut(spec, c) for c in cuts]
        sim.check(all(a >= b - tol for a, b in zip(vals, vals[1:])), "cuts-not-sorted", lambda: "%r" % vals)
    sim.check(tuple(int(round(v)) for v in x) == cuts[0], "not-the-first-cut", lambda: "x=%r cuts %r" % (x, cuts))
    return cuts


def run(sim):
    spec = maxcut(sim, 6 if not sim.chance(0.05) else 12)
    sim.ev("graph", sorted(spec.w.items()), len(spec.vars))
    problem = spec.build(style=sim.draw(3))
    num_cuts = sim.pick([4, 1, 2, 10, 40])
    unique, sort = sim.chance(0.6), sim.chance(0.6)
    opt = GoemansWilliamsonOptimizer(num_cuts, sort_cuts=sort, unique_cuts=unique, seed=sim.draw(1000))
    sim.ev("options", num_cuts, unique, sort)
    with SimSdp(sim, lambda i: sim.weighted(BEHAVIOURS)) as sdp:
        for _ in range(1 + sim.weighted([(6, 0), (2, 1), (1, 2)])):
            c0 = len(sdp.log)
            err = res = None
            try:
                res = opt.solve(problem)
            except SimFault:
                err = "fault"
            except (np.linalg.LinAlgError, cvxpy.SolverError, cvxpy.DCPError, ValueError, TypeError) as e:
                err = type(e).__name__
                exc = e
            hows = sdp.log[c0:]
            how = hows[-1] if hows else "not-intercepted"
            sim.ev("outcome", err, None if res is None else res.status.name)
            if err == "fault":
                sim.check(how == "other-error", "phantom-exception", "")
            elif err is not None:
                if how in ("real", "gram", "not-intercepted", "rank-one", "inaccurate", "indefinite", "asymmetric"):
                    raise exc
                sim.probe("raised-" + how)
            elif how in ("none", "solver-error", "dcp-error", "other-error", "nan"):
                sim.check(res.status.name != "SUCCESS", "failure-presented-as-success",
                          lambda: "SDP solver: %s, result %s x=%r" % (how, res.status.name, res.x))
                sim.check(res.x is None and not any(s.x is not None for s in (res.samples or [])), "failure-with-values",
                          lambda: "x=%r" % (res.x,))
                sim.check(list(res.variable_names) == [v[0] for v in spec.vars], "failure-variables", "")
                sim.probe("failure-reported")
            else:
                cuts = judge(sim, spec, res, num_cuts, unique, sort)
                sim.probe("nontrivial")
                if how == "real" and num_cuts >= 40 and all(w > 0.01 for w in spec.w.values()):
                    # (weights far below the SDP solver's own accuracy are not a healthy input for it)
                    opt_val = max(cut(spec, [(k >> i) & 1 for i in range(len(spec.vars))]) for k in range(2 ** len(spec.vars)))
                    best = max(cut(spec, c) for c in cuts)
                    sim.check(best >= 0.8 * opt_val - 1e-12, "approximation-guarantee",
                              lambda: "best of %d cuts weighs %r, maximum %r; graph %r" % (num_cuts, best, opt_val, spec.w))
                    sim.probe("approximation-checked")
            sim.state(len(spec.vars), how, unique, sort, num_cuts, None if res is None or not res.samples else len(res.samples),
                      err or res.status.name)
