"""C02: reported samples account exactly for the measured distribution."""
from qiskit_optimization.algorithms import MinimumEigenOptimizer

from props.c01 import decode, make_config, reference_converter
from sim import gen, oracle, worlds
from sim.core import SimFault, close

RUNS = {"quick": 6000, "thorough": 150000}
BATCH = 50
RULE = ("one run = one seeded program and converter chain solved 1-3 times against drawn measured distributions (1..1024 shots, "
        "depolarised, single-shot, degenerate, sub-threshold leakage) in five state formats; non-trivial when at least two "
        "outcomes were measured; distinct by digest of the full event log")
REAL = ["MinimumEigenOptimizer", "sample decoding and interpretation", "QuadraticProgram", "all converters", "qiskit opflow"]
STUB = ["the minimum eigensolver / quantum backend (simulated)"]
STATE_MEASURE = "hash of (number of outcomes, number of merged samples, variable kinds, statuses of samples, converter chain)"
ASSUMPTIONS = ["outcomes with a probability of at most 1e-6 may be dropped from the samples (documented threshold)"]

BEHAVIOURS = [(6, "noisy"), (3, "exact-all"), (3, "uniform"), (1, "single-shot"), (4, "garbage"), (1, "exact")]


def compare(sim, got, want, cls, what):
    """Two sub-probability measures on assignments agree (outcomes below the threshold may be missing)."""
    for k in set(got) | set(want):
        g, w = got.get(k, 0.0), want.get(k, 0.0)
        sim.check(abs(g - w) <= 5e-6, cls, lambda: "%s: %r reported with probability %r, measured %r; reported %r, measured %r" % (
            what, k, g, w, sorted(got.items()), sorted(want.items())))


def judge_samples(sim, spec, problem, res, dist, kind, pen, who=""):
    convs, _ = reference_converter(kind, pen)
    q = problem
    for c in convs:
        q = c.convert(q)
    qs = gen.spec_of(q)
    # raw samples: the measured distribution on the converted program
    raw = {}
    for s in res.raw_samples:
        b = tuple(int(round(float(v))) for v in s.x)
        sim.check(len(b) == len(qs.vars), who + "raw-sample-size", lambda: "%r for %d binaries" % (b, len(qs.vars)))
        sim.check(b not in raw, who + "raw-sample-duplicate", lambda: "raw sample %r listed twice" % (b,))
        raw[b] = float(s.probability)
        sim.check(close(s.fval, qs.f(b)), who + "raw-sample-objective",
                  lambda: "raw sample %r fval %r, converted objective %r" % (b, s.fval, qs.f(b)))
    compare(sim, raw, dist, who + "raw-distribution", "raw samples")
    # samples: the same distribution seen through the decoding
    seen = oracle.check_samples(sim, spec, res, who)
    want = oracle.merge((tuple(round(v, 9) for v in decode(convs, b)), p) for b, p in dist.items())
    compare(sim, seen, want, who + "sample-distribution", "samples")
    vals = [spec.sense * float(s.fval) for s in res.samples if s.status.name == "SUCCESS"]
    sim.check(vals == sorted(vals) or all(a <= b + 1e-9 for a, b in zip(vals, vals[1:])), who + "feasible-order", "")
    sim.state(len(dist), len(seen), tuple(v[1] for v in spec.vars), tuple(s.status.name[0] for s in res.samples)[:6], kind)
    return seen


def run(sim):
    big = sim.chance(0.06)   # now and then more variables than usual
    spec = gen.discrete(sim, max_vars=9 if big else 4, max_bits=10 if big else 7, fixed_ok=True, eq_frac=0.08, min_vars=5 if big else 1)
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    kind, pen, convs = make_config(sim, spec)
    sim.ev("config", kind, pen)
    solver = worlds.SimEigensolver(sim, plan=lambda i: sim.weighted(BEHAVIOURS))
    opt = MinimumEigenOptimizer(solver, penalty=pen if kind == "default" else None, converters=convs())
    kept = []
    for _ in range(1 + sim.weighted([(6, 0), (2, 1), (1, 2)])):
        res = opt.solve(problem)
        dist = solver.log[-1][3]
        sim.ev("samples", [([float(v) for v in s.x], round(float(s.fval), 6), round(float(s.probability), 6), s.status.name)
                           for s in res.samples])
        sim.check(res.samples is not None and len(res.samples) > 0, "no-samples", "")
        if len(dist) > 1:
            sim.probe("nontrivial")
        seen = judge_samples(sim, spec, problem, res, dist, kind, pen)
        kept.append((res, dict(seen)))
        if len(seen) < len(dist):
            sim.probe("merged-outcomes")
    for res, seen in kept:
        now = {tuple(round(float(v), 9) for v in s.x): float(s.probability) for s in res.samples}
        sim.check(now == seen, "earlier-samples-changed", "samples of an earlier result changed by a later solve")
