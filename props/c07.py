"""C07: warm-start QAOA uses only good starts and reports truthful results."""
import numpy as np
from qiskit.quantum_info import Statevector
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (MeanAggregator, OptimizationResultStatus, SolutionSample, WarmStartQAOAFactory,
                                            WarmStartQAOAOptimizer)

from props.c01 import decode, judge, make_config, reference_converter
from props.c02 import compare, judge_samples
from sim import gen, oracle, worlds
from sim.core import SimFault, close

RUNS = {"quick": 3000, "thorough": 80000}
BATCH = 30
RULE = ("one run = one seeded program, converter chain, regularisation, 1-4 requested starts; the pre-solver's status, solutions "
        "(integral, fractional, out of range, fewer than requested, none) and every QAOA outcome are drawn; non-trivial when at least "
        "one QAOA run was made; distinct by digest of the full event log")
REAL = ["WarmStartQAOAOptimizer", "WarmStartQAOAFactory", "MeanAggregator", "QuadraticProgram", "all converters",
        "qiskit circuits and their state-vector evaluation"]
STUB = ["the pre-solver (drawn answers)", "QAOA's variational run (drawn measured distributions)"]
STATE_MEASURE = "hash of (starts requested, starts used, pre-solver status, outcome behaviours, relaxed, variable kinds, status)"
ASSUMPTIONS = ["a QAOA run that yields no state may abort a solve that combines several runs"]

BEHAVIOURS = [(5, "noisy"), (2, "exact"), (2, "exact-all"), (1, "uniform"), (1, "single-shot"), (2, "garbage")]


class SimQAOA(worlds.SimEigensolver):
    """QAOA's interface as the optimizer uses it: settable initial state and mixer, then one run."""

    def __init__(self, sim, plan):
        super().__init__(sim, plan)
        self.initial_state = None
        self.mixer = None
        self.seen = []

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        self.seen.append((None if self.initial_state is None else self.initial_state.copy(),
                          None if self.mixer is None else self.mixer.copy()))
        return super().compute_minimum_eigenvalue(operator, aux_operators)


def one_probs(circuit, n):
    p = np.abs(Statevector.from_instruction(circuit).data) ** 2
    return [float(sum(p[k] for k in range(2 ** n) if (k >> q) & 1)) for q in range(n)]


def check_start(sim, init, mixer, values, eps, n):
    want = [min(max(v, eps), 1 - eps) for v in values]
    sim.check(init is not None and mixer is not None, "start-not-set", "QAOA ran without initial state or mixer")
    sim.check(init.num_qubits == n and mixer.num_qubits == n, "start-size", "")
    got = one_probs(init, n)
    sim.check(all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "initial-state",
              lambda: "one-probabilities %r, regularised pre-solution %r (eps %r, values %r)" % (got, want, eps, values))
    sim.check(mixer.num_parameters == 1, "mixer-parameters", "%d parameters" % mixer.num_parameters)
    m = mixer.bind_parameters({list(mixer.parameters)[0]: 0.7})
    psi = Statevector.from_instruction(init)
    fid = abs(np.vdot(psi.data, psi.evolve(m).data))
    sim.check(abs(fid - 1) < 1e-8, "mixer-start-mismatch", lambda: "the mixer does not keep the initial state: overlap %r" % fid)
    if all(0.05 < w < 0.95 for w in want):
        # every qubit is really mixed
        z = Statevector.from_int(0, 2 ** n)
        moved = one_probs_of(z.evolve(m), n)
        sim.check(all(v > 1e-4 for v in moved), "mixer-idle", lambda: "mixer leaves a qubit untouched: %r" % (moved,))


def one_probs_of(sv, n):
    p = np.abs(sv.data) ** 2
    return [float(sum(p[k] for k in range(2 ** n) if (k >> q) & 1)) for q in range(n)]


def run(sim):
    big = sim.chance(0.04)
    spec = gen.discrete(sim, max_vars=6 if big else 3, max_bits=7 if big else 5, fixed_ok=False)
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    kind, pen, convs = make_config(sim, spec)
    eps = sim.pick([0.25, 0.1, 0.5, 0.0, 0.4])
    want_starts = sim.pick([2, 1, 3, 4])
    relax = sim.chance(0.5)
    factory = None
    eff_eps = eps
    if sim.chance(0.2):
        eff_eps = sim.pick([0.3, 0.05])
        factory = WarmStartQAOAFactory(eff_eps)
    aggregator = MeanAggregator() if sim.chance(0.3) else None
    sim.ev("config", kind, pen, eps, want_starts, relax, eff_eps)
    plan = lambda i: sim.weighted(BEHAVIOURS + ([(1, "raise"), (1, "none")] if faulty else []))
    faulty = sim.chance(0.15)
    qaoa = SimQAOA(sim, plan)
    pre = {}

    def presolve(prob, s, i):
        n = len(s.vars)
        sim.advance(1.0)
        pre["spec"] = s
        st = sim.weighted([(8, "SUCCESS"), (1, "INFEASIBLE"), (1, "FAILURE")])
        pre["status"] = st
        status = OptimizationResultStatus[st]
        k = sim.pick([2, 1, 3, 5])
        sols = []
        for _ in range(k):
            if relax:
                sols.append([sim.pick([0.0, 1.0, 0.5, 0.3, 0.8, eff_eps, 1 - eff_eps, 1e-9, 1 + 1e-9, -1e-9]) for _ in range(n)])
            else:
                sols.append([float(sim.draw(2)) for _ in range(n)])
        if st != "SUCCESS":
            sim.fault("presolver-" + st.lower())
            if st == "FAILURE" and sim.chance(0.5):
                return worlds.make_result(prob, None, status=status)
        if k < want_starts:
            sim.fault("presolver-too-few-solutions")
        sols.sort(key=lambda v: s.sense * s.f(v))   # listed best first
        pre["sols"] = sols
        w = [sim.pick([1, 2, 5, 20]) for _ in sols]
        sim.ev("presolve", st, sols, w)
        samples = [SolutionSample(np.array(v), prob.objective.evaluate(np.array(v)), c / float(sum(w)), status) for v, c in zip(sols, w)]
        if k == 1 and sim.chance(0.5):
            samples = None
        return worlds.make_result(prob, sols[0], samples=samples, status=status)

    presolver = worlds.sim_optimizer_class()(sim, presolve, "presolver")
    opt = WarmStartQAOAOptimizer(presolver, relax, qaoa, epsilon=eps, num_initial_solutions=want_starts, warm_start_factory=factory,
                                 aggregator=aggregator, penalty=pen if kind == "default" else None, converters=convs())
    rc, _ = reference_converter(kind, pen)
    q = problem
    for c in rc:
        q = c.convert(q)
    qs = gen.spec_of(q)
    n = len(qs.vars)
    for rep in range(1 + (sim.draw(4) == 3)):
        c0 = qaoa.calls
        p0 = presolver.calls
        pre.clear()
        err = None
        res = None
        try:
            res = opt.solve(problem)
        except SimFault:
            err = "fault"
        except (QiskitOptimizationError, TypeError, AttributeError) as e:
            err = type(e).__name__
            tb = e
        log = qaoa.log[c0:]
        hows = [e[2] for e in log]
        sim.check(presolver.calls == p0 + 1, "presolver-calls", "")
        s = pre["spec"]
        sim.check([(v[0], v[2], v[3]) for v in s.vars] == [(v[0], v[2], v[3]) for v in qs.vars] and s.sense == qs.sense and
                  all(v[1] == ("c" if relax else "b") for v in s.vars), "presolver-program", lambda: "%r vs %r" % (s.show(), qs.show()))
        pt = [0.25 + 0.125 * i for i in range(n)]
        sim.check(close(s.f(pt), qs.f(pt)), "presolver-objective", "")
        if pre["status"] != "SUCCESS":
            sim.check(err is not None and res is None, "bad-presolve-accepted",
                      lambda: "pre-solver status %s but a result %s was returned" % (pre["status"], res.status))
            sim.check(err == "QiskitOptimizationError", "bad-presolve-error", "raised %s" % err)
            sim.check(not log, "bad-presolve-used", "QAOA ran %d times" % len(log))
            sim.probe("presolve-rejected")
            sim.state(want_starts, 0, pre["status"], relax)
            continue
        used = min(want_starts, len(pre["sols"]))
        sim.state(want_starts, used, pre["status"], tuple(sorted(hows)), relax, tuple(v[1] for v in spec.vars), err)
        for k, (init, mixer) in enumerate(qaoa.seen[c0:]):
            sim.check(k < used, "too-many-runs", lambda: "QAOA run %d with %d pre-solutions" % (k + 1, used))
            # distinct pre-solutions in the pre-solver's own (best first) order
            check_start(sim, init, mixer, pre["sols"][k], eff_eps, n)
            sim.probe("nontrivial")
        if err == "fault":
            sim.check(hows and hows[-1] == "raise", "phantom-exception", "")
            continue
        sim.check("raise" not in hows, "exception-swallowed", "QAOA raised but a result was returned")
        if err is not None:
            if "none" in hows and used > 1:
                sim.probe("no-state-aborts")
                continue
            raise tb
        sim.check(len(log) == used, "number-of-runs", lambda: "%d QAOA runs for %d pre-solutions" % (len(log), used))
        sim.ev("result", None if res.x is None else [float(v) for v in res.x], res.status.name)
        if used == 1:
            judge(sim, spec, problem, res, log[0], kind, pen)
            if hows[0] != "none":
                judge_samples(sim, spec, problem, res, log[0][3], kind, pen)
            continue
        x = oracle.check_result(sim, spec, res)
        if "none" in hows:
            continue
        sim.check(x is not None, "lost-solution", "")
        seen = oracle.check_samples(sim, spec, res)
        want = oracle.merge((tuple(round(v, 9) for v in decode(rc, b)), p / used) for e in log for b, p in e[3].items())
        compare(sim, seen, want, "mean-distribution", "aggregated samples")
        key = tuple(round(v, 9) for v in x)
        sim.check(key in seen, "answer-not-sampled", lambda: "x=%r is none of the samples %r" % (x, sorted(seen)))
        best = min((0 if spec.feasible(k) else 2, spec.sense * spec.f(k)) for k in seen)
        mine = (0 if spec.feasible(x) else 2, spec.sense * spec.f(x))
        sim.check(mine[0] == best[0] and mine[1] <= best[1] + 1e-9, "not-the-best-sample",
                  lambda: "x=%r %r, best %r" % (x, mine, best))
        sim.probe("aggregated")
