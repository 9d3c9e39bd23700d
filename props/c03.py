"""C03: Grover search stops and reports the best outcome it measured."""
import itertools
import math

from qiskit_optimization.algorithms import GroverOptimizer

from props.c01 import decode, reference_converter
from sim import gen, oracle, worlds
from sim.core import SimFault, close

RUNS = {"quick": 900, "thorough": 20000}
BATCH = 10
CPU_LIMIT = 120
RULE = ("one run = one integer-valued program solved 1-2 times by Grover adaptive search on a simulated backend that executes "
        "the real circuits exactly (state vector, 1 shot or many shots) and corrupts read-outs in drawn bursts; non-trivial "
        "when at least three circuits were executed; distinct by digest of the full event log")
REAL = ["GroverOptimizer", "qiskit Grover/QuadraticForm circuits", "converters", "sample decoding"]
STUB = ["QuantumInstance/backend (exact simulation of each circuit, shots, read-out errors and job failures by the simulator)"]
STATE_MEASURE = "hash of (key qubits, value qubits, executions, improving rounds, backend kind, noise positions, status)"
ASSUMPTIONS = ["key qubit i of the executed circuit carries variable i of the converted program",
               "program values and all their differences fit the value register (otherwise two's complement wraps)"]


def build(sim):
    shape = sim.weighted([(6, "binary"), (2, "constrained"), (2, "integer")])
    s = gen.Spec()
    names = sim.pick(gen.NAMES)
    n = 1 + sim.draw(3)
    pen = None
    if shape == "integer":
        s.vars = [(names[0], "i", sim.rint(-2, 2), 0)]
        s.vars[0] = (names[0], "i", s.vars[0][2], s.vars[0][2] + sim.pick([1, 2, 3]))
        if sim.chance(0.5):
            s.vars.append((names[1], "b", 0, 1))
    else:
        s.vars = [(names[i], "b", 0, 1) for i in range(n)]
    n = len(s.vars)
    s.sense = sim.pick([1, -1])
    s.const = sim.rint(-2, 2)
    for i in range(n):
        c = sim.rint(-3, 3)
        if c:
            s.lin[i] = c
    for i in range(n):
        for j in range(i, n):
            if sim.chance(0.4):
                c = sim.rint(-2, 2)
                if c:
                    s.quad[(i, j)] = c
    if shape == "constrained" and n >= 2:
        lin = {i: 1 for i in sim.sample(range(n), 2)}
        s.lcons.append(("c", lin, "==", sim.pick([1, 0, 2])))
        pen = sim.pick([2, 4])
    return s, pen


def run(sim):
    spec, pen = build(sim)
    sim.ev("program", spec.show(), pen)
    problem = spec.build(style=sim.draw(3))
    plain = not spec.lcons and all(v[1] == "b" for v in spec.vars) and sim.chance(0.3)
    kind = "none" if plain else "default"
    if sim.chance(0.1):
        kind = sim.pick(["reverse", "flip", "both"])
    convs, penf = reference_converter(kind, pen)
    q = problem
    for c in convs:
        q = c.convert(q)
    qs = gen.spec_of(q)
    nk = len(qs.vars)
    vals = {b: qs.f(b) * qs.sense for b in itertools.product((0, 1), repeat=nk)}
    if nk > 4:
        sim.probe("too-large")
        return
    span = max(max(vals.values()), 0) - min(min(vals.values()), 0)
    nv = 2
    while 2 ** (nv - 1) - 1 < span:
        nv += 1
    if nk + nv > 10:
        sim.probe("too-large")
        return
    sv = sim.chance(0.35)
    shots = 1 if sv else sim.pick([1, 1, 16, 200])
    n_iter = sim.pick([3, 1, 2, 5, 8])
    noisy = sim.chance(0.4)
    burst = (sim.draw(3), 1 + sim.draw(5)) if noisy else (0, 0)
    fail_at = sim.draw(5) if sim.chance(0.06) else None
    lose_at = (sim.draw(4), sim.pick(["empty", "lost"])) if not sv and sim.chance(0.06) else None

    def plan(i):
        if fail_at is not None and i == fail_at:
            return "raise"
        if lose_at is not None and i == lose_at[0]:
            return lose_at[1]
        if burst[0] <= i < burst[0] + burst[1]:
            return sim.pick(["flip", "random"])
        return "ok"

    bound = burst[0] + burst[1] + (2 ** nk + 4) * (n_iter + 1) * 2
    sim.ev("config", kind, nk, nv, sv, shots, n_iter, burst, fail_at)
    qi = worlds.SimQuantumInstance(sim, sv, shots, plan, max_calls=bound + 1)
    opt = GroverOptimizer(nv, num_iterations=n_iter, quantum_instance=qi, penalty=None if kind == "none" else pen,
                          converters=None if kind == "default" else reference_converter(kind, pen)[0])
    for rep in range(1 + (sim.draw(4) == 3)):
        qi.log = []
        qi.calls = 0
        try:
            res = opt.solve(problem)
        except SimFault:
            sim.check(qi.log and qi.log[-1][0] == "raise", "phantom-exception", "")
            sim.ev("raised")
            continue
        except Exception:
            if not any(h in ("empty", "lost") for h, _ in qi.log):
                raise
            sim.ev("lost shots reported")
            sim.probe("lost-shots-reported")
            continue
        sim.check(not any(h == "raise" for h, _ in qi.log), "exception-swallowed", "the backend raised but a result was returned")
        log = qi.log
        sim.ev("result", [float(v) for v in res.x], float(res.fval), res.status.name, len(log))
        if len(log) >= 3:
            sim.probe("nontrivial")
        x = oracle.check_result(sim, spec, res)
        sim.check(x is not None and res.status.name != "FAILURE", "lost-solution", "")
        # keys per executed circuit
        rounds = []
        for how, dist in log:
            keys = {}
            for b, p in dist.items():
                keys[b[:nk]] = keys.get(b[:nk], 0.0) + p
            rounds.append((how, keys))
        decs = {}
        for b in vals:
            decs.setdefault(tuple(round(v, 9) for v in decode(convs, b)), []).append(b)
        mine = decs.get(tuple(round(v, 9) for v in x), [])
        sim.check(mine, "undecodable-answer", lambda: "x=%r is no decoding of any key" % x)
        zero = (0,) * nk
        healthy = all(h == "ok" for h, _ in log)
        sim.check(any(zero == b or any(b in keys for _, keys in rounds) for b in mine), "answer-never-measured",
                  lambda: "x=%r was not measured in %r" % (x, rounds))
        best_mine = min(vals[b] for b in mine)
        sim.check(any(close(res.intermediate_fval, qs.f(b)) for b in mine), "intermediate-objective",
                  lambda: "intermediate_fval=%r, x=%r" % (res.intermediate_fval, x))
        if healthy:
            for how, keys in rounds:
                worst = max(vals[b] for b in keys if keys[b] > 1e-9)
                sim.check(best_mine <= worst + 1e-9, "worse-than-measured",
                          lambda: "reported x=%r (value %r) but a measured key had value %r; rounds %r program %r" % (
                              x, best_mine, worst, rounds, spec.show()))
        # samples: the key distribution of one executed circuit, seen through the decoding
        seen = oracle.check_samples(sim, spec, res)
        ok = []
        for r, (how, keys) in enumerate(rounds):
            want = oracle.merge((tuple(round(v, 9) for v in decode(convs, b)), p) for b, p in keys.items())
            if all(abs(seen.get(k, 0.0) - want.get(k, 0.0)) <= 1e-5 for k in set(seen) | set(want)):
                ok.append(r)
        sim.check(ok, "samples-not-measured", lambda: "samples %r are no measured distribution of %r" % (seen, rounds))
        raw = {tuple(int(round(float(v))) for v in s.x): float(s.probability) for s in res.raw_samples}
        sim.check(any(all(abs(raw.get(k, 0.0) - rounds[r][1].get(k, 0.0)) <= 1e-5 for k in set(raw) | set(rounds[r][1]))
                      for r in ok), "raw-samples-not-measured", lambda: "%r vs %r" % (raw, rounds))
        sim.check(all(close(s.fval, qs.f([int(round(float(v))) for v in s.x])) for s in res.raw_samples), "raw-sample-objective", "")
        if healthy and shots == 1 and not sv:
            # every outcome is known: the samples are those of an outcome with the best value seen
            seq = [next(iter(keys)) for _, keys in rounds]
            m = min(vals[b] for b in seq)
            sim.check(best_mine <= m + 1e-9, "worse-than-measured", lambda: "x=%r value %r, best measured %r" % (x, best_mine, m))
            only = next(iter(raw))
            sim.check(close(vals[only], m), "samples-of-wrong-round", lambda: "samples %r, best measured value %r" % (raw, m))
        sim.state(nk, nv, len(log), kind, sv, shots, tuple(h[0] for h, _ in log)[:8], res.status.name)
