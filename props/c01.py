"""C01: eigensolver-backed solving returns only truthful results."""
from qiskit_optimization.algorithms import MinimumEigenOptimizer
from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                            QuadraticProgramToQubo)

from sim import gen, oracle, worlds
from sim.core import SimFault, close

RUNS = {"quick": 5000, "thorough": 120000}
BATCH = 50
RULE = ("one run = one seeded program (binary/integer, min/max, <=,>=,==) and converter chain, solved 1-3 times by one "
        "optimizer whose eigensolver's answers (exact, noisy, depolarised, single-shot, garbage, none, exception; five state "
        "formats) are drawn by the simulator; non-trivial when a state with at least one outcome reached the optimizer; "
        "distinct by digest of the full event log")
REAL = ["MinimumEigenOptimizer", "QuadraticProgram", "all converters", "Ising translation", "sample decoding", "qiskit opflow"]
STUB = ["the minimum eigensolver / quantum backend (simulated)"]
STATE_MEASURE = "hash of (solver behaviour, state format, number of outcomes, variable kinds, constraint senses, status)"
ASSUMPTIONS = ["eigenstates follow the solver library's conventions (qubit 0 least significant; dictionaries hold amplitudes)"]

BEHAVIOURS = [(5, "noisy"), (3, "exact"), (2, "exact-all"), (2, "uniform"), (2, "single-shot"), (3, "garbage"), (1, "none"),
              (1, "raise")]


def make_config(sim, spec):
    """(optimizer factory args, fresh converters factory, penalty reader)."""
    pen = sim.pick([None, None, 7.0, 3, 1e3])
    kinds = ["default", "qubo-object", "chain"]
    if not spec.lcons and all(v[1] == "b" for v in spec.vars):
        kinds.append("none")
    if all(v[1] == "b" for v in spec.vars) and all(c[2] == "==" for c in spec.lcons):
        kinds.append("penalty-only")
    kind = sim.pick(kinds)
    if sim.chance(0.12):
        kind = sim.pick(["reverse", "flip", "both"])

    def convs():
        if kind in ("reverse", "flip", "both"):
            return reference_converter(kind, pen)[0]
        if kind == "default":
            return None
        if kind == "qubo-object":
            return QuadraticProgramToQubo(penalty=pen)
        if kind == "chain":
            return [InequalityToEquality(mode="integer"), IntegerToBinary(), LinearEqualityToPenalty(pen)]
        if kind == "penalty-only":
            return [LinearEqualityToPenalty(pen)]
        return []
    return kind, pen, convs


def reference_converter(kind, pen):
    """A fresh converter list equivalent to the configuration (public API), and its penalty accessor."""
    if kind in ("reverse", "flip", "both"):
        # converters written by the user, around the package's own
        rev, flip = worlds.user_converters()
        c = QuadraticProgramToQubo(penalty=pen)
        return ([rev()] if kind != "flip" else []) + [c] + ([flip()] if kind != "reverse" else []), lambda: c.penalty
    if kind in ("default", "qubo-object"):
        c = QuadraticProgramToQubo(penalty=pen)
        return [c], lambda: c.penalty
    if kind == "chain":
        p = LinearEqualityToPenalty(pen)
        return [InequalityToEquality(mode="integer"), IntegerToBinary(), p], lambda: p.penalty
    if kind == "penalty-only":
        p = LinearEqualityToPenalty(pen)
        return [p], lambda: p.penalty
    return [], lambda: 1.0


def decode(convs, b):
    x = list(b)
    for c in convs[::-1]:
        x = c.interpret(x)
    return [float(v) for v in x]


def judge(sim, spec, problem, res, entry, kind, pen, who=""):
    """All of C01 for one returned result; entry = (terms, n, behaviour, dist)."""
    terms, n, how, dist = entry
    x = oracle.check_result(sim, spec, res, who)
    if how == "none":
        sim.check(res.x is None and res.status.name == "FAILURE", who + "missing-state-not-failure",
                  lambda: "status %s x=%r after a solve without state" % (res.status.name, res.x))
        sim.probe("failure-reported")
        return None
    sim.check(x is not None, who + "lost-solution", lambda: "no values although the solver returned %r" % (dist,))
    sim.probe("nontrivial")
    big = {b: p for b, p in dist.items() if p >= 1e-5}
    es = {b: worlds.energy(terms, b) for b in big}
    best = min(es.values())
    bests = [b for b in big if close(es[b], best, 1e-9)]
    convs, penf = reference_converter(kind, pen)
    q = problem
    for c in convs:
        q = c.convert(q)
    qs = gen.spec_of(q)
    sim.check(len(qs.vars) == n, who + "operator-size", lambda: "%d qubits for %d binaries" % (n, len(qs.vars)))
    # (a) the energies the solver minimised are the converted objective (up to a constant), so that its
    #     best outcome is the converted program's best outcome
    offs = [qs.sense * qs.f(b) - es[b] for b in big]
    sim.check(all(close(o, offs[0], 1e-6) for o in offs), who + "energies-differ",
              lambda: "operator energies do not follow the converted objective: offsets %r" % offs)
    # (b) the reported point is decoded from a best outcome: same point by the converters' own decoding,
    #     and its energy is the program's objective plus a possible squared-constraint penalty
    cands = [decode(convs, b) for b in bests]
    sim.check(any(all(close(a, c) for a, c in zip(x, cand)) for cand in cands), who + "not-the-best-outcome",
              lambda: "x=%r but best outcomes %r decode to %r" % (x, bests, cands))
    P = penf()
    sim.check(any(oracle.energy_gap_ok(spec, x, qs.sense * spec.sense * qs.f(b), P) for b in bests), who + "decoded-energy-mismatch",
              lambda: "x=%r has objective %r; best outcomes' converted objectives %r with penalty %r; program %r" % (
                  x, spec.f(x), [qs.f(b) for b in bests], P, spec.show()))
    sim.state(how, len(big), tuple(v[1] for v in spec.vars), tuple(c[2] for c in spec.lcons), res.status.name, kind)
    return x


def run(sim):
    big = sim.chance(0.06)   # now and then more variables than usual
    spec = gen.discrete(sim, max_vars=9 if big else 4, max_bits=10 if big else 7, fixed_ok=True, eq_frac=0.08, min_vars=5 if big else 1)
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    kind, pen, convs = make_config(sim, spec)
    sim.ev("config", kind, pen)
    solver = worlds.SimEigensolver(sim, plan=lambda i: sim.weighted(BEHAVIOURS))
    cv = convs()
    opt = MinimumEigenOptimizer(solver, penalty=pen if kind == "default" else None, converters=cv)
    for _ in range(1 + sim.weighted([(6, 0), (2, 1), (1, 2)])):
        before = solver.calls
        try:
            res = opt.solve(problem)
        except SimFault:
            sim.check(solver.log and solver.log[-1][2] == "raise", "phantom-exception", "")
            sim.probe("exception-propagated")
            sim.ev("raised")
            continue
        sim.check(solver.calls == before + 1, "solver-calls", lambda: "%d eigensolver calls" % (solver.calls - before))
        entry = solver.log[-1]
        sim.check(entry[2] != "raise", "exception-swallowed", "the eigensolver raised but a result was returned")
        sim.ev("result", None if res.x is None else [float(v) for v in res.x],
               None if res.fval is None else float(res.fval), res.status.name)
        judge(sim, spec, problem, res, entry, kind, pen)
