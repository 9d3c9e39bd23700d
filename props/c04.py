"""C04: recursive elimination preserves energies and unrolls consistently."""
import itertools

from qiskit_optimization.algorithms import MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer
from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import IntermediateResult

from props.c01 import decode, make_config, reference_converter
from sim import gen, oracle, worlds
from sim.core import close

RUNS = {"quick": 5000, "thorough": 100000}
BATCH = 20
RULE = ("one run = one seeded program solved 1-2 times by recursive elimination whose inner answers (drawn sample sets: correlated, "
        "anti-correlated, tied, uncorrelated, noisy; or a real eigensolver pipeline with noisy states) are decided by the simulator; "
        "non-trivial when at least two variables were eliminated; distinct by digest of the full event log")
REAL = ["RecursiveMinimumEigenOptimizer", "correlations", "substitute_variables", "converters", "MinimumEigenOptimizer in part of the runs"]
STUB = ["inner optimizer / eigensolver answers", "final sub-solver in part of the runs"]
STATE_MEASURE = "hash of (variables, rounds, sequence of signs, kinds of inner answers, sense)"
ASSUMPTIONS = ["inner answers are 0/1 samples with probabilities summing to one"]


def run(sim):
    big = sim.chance(0.03)
    spec = gen.discrete(sim, max_vars=8 if big else 5, max_bits=9 if big else 7, fixed_ok=True, min_vars=6 if big else 1)
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    kind, pen, convs = make_config(sim, spec)
    cls = worlds.sim_optimizer_class()
    kinds = []

    def inner_answer(p, s, i):
        n = len(s.vars)
        how = sim.weighted([(4, "garbage"), (2, "aligned"), (2, "anti"), (1, "uniform"), (1, "one"), (2, "eigen"), (2, "weak"), (2, "near-ties")])
        kinds.append(how)
        if how == "eigen":
            real = MinimumEigenOptimizer(worlds.SimEigensolver(sim, plan=lambda _: sim.pick(["noisy", "exact-all", "garbage"])),
                                         converters=[])
            return real.solve(p)
        if how == "uniform":
            dist = {b: 1.0 / 2 ** n for b in itertools.product((0, 1), repeat=n)}
            sim.fault("uncorrelated-answer")
        elif how in ("aligned", "anti"):
            b = tuple(sim.draw(2) if how == "anti" else 0 for _ in range(n))
            c = tuple(1 - v for v in b)
            w = sim.pick([0.5, 0.25, 0.75])
            dist = {b: w, c: 1 - w}
            sim.fault("tied-correlations")
        elif how == "weak":
            # almost uncorrelated: the uniform distribution with a little weight moved around
            dist = {b: 1.0 / 2 ** n for b in itertools.product((0, 1), repeat=n)}
            keys = sorted(dist)
            for _ in range(1 + sim.draw(3)):
                a, b = keys[sim.draw(len(keys))], keys[sim.draw(len(keys))]
                d = dist[a] * sim.pick([0.01, 0.1, 0.5, 1.0])
                dist[a] -= d
                dist[b] += d
            dist = {b: p for b, p in dist.items() if p > 0}
            sim.fault("uncorrelated-answer")
        elif how == "near-ties":
            # all pairs almost equally correlated
            b = tuple(sim.draw(2) for _ in range(n))
            w = sim.pick([0.5, 0.3])
            dist = {b: w, tuple(1 - v for v in b): 1 - w}
            for _ in range(1 + sim.draw(3)):
                a = tuple(sim.draw(2) for _ in range(n))
                d = sim.pick([1e-4, 1e-3, 4e-3, 0.02])
                dist[b] -= d
                dist[a] = dist.get(a, 0.0) + d
            sim.fault("tied-correlations")
        elif how == "one":
            dist = {tuple(sim.draw(2) for _ in range(n)): 1.0}
            sim.fault("single-shot")
        else:
            dist = worlds.random_dist(sim, n)
            sim.fault("noisy-answer")
        return worlds.make_result(p, max(dist, key=lambda b: (dist[b], b)), samples=worlds.make_samples(p, dist))

    def last_answer(p, s, i):
        n = len(s.vars)
        if sim.chance(0.5):
            sim.fault("wrong-final-answer")
            return worlds.make_result(p, [sim.draw(2) for _ in range(n)])
        best = min(itertools.product((0, 1), repeat=n), key=lambda b: (s.sense * s.f(b), b))
        return worlds.make_result(p, best)

    inner = cls(sim, inner_answer, "inner", 40)
    last = cls(sim, last_answer, "last", 4)
    use_last = sim.chance(0.7)
    mnv = 1 + sim.draw(6 if big else 4)
    hist = sim.pick([IntermediateResult.LAST_ITERATION, IntermediateResult.ALL_ITERATIONS, IntermediateResult.NO_ITERATIONS])
    opt = RecursiveMinimumEigenOptimizer(inner, min_num_vars=mnv, min_num_vars_optimizer=last if use_last else None,
                                         penalty=pen if kind == "default" else None, history=hist, converters=convs())
    sim.ev("config", kind, pen, mnv, use_last)
    for _ in range(1 + (sim.draw(4) == 3)):
        inner.specs, inner.results, inner.calls = [], [], 0
        last.specs, last.results, last.calls = [], [], 0
        del kinds[:]
        res = opt.solve(problem)
        x = oracle.check_result(sim, spec, res)
        sim.check(x is not None, "lost-solution", "")
        sim.ev("result", x, float(res.fval), res.status.name, sorted(res.replacements.items()))
        ref, _ = reference_converter(kind, pen)
        q = problem
        for c in ref:
            q = c.convert(q)
        full = gen.spec_of(q)
        n0 = len(full.vars)
        names0 = [v[0] for v in full.vars]
        rounds = inner.calls
        sim.check(rounds == max(0, n0 - mnv), "number-of-rounds", lambda: "%d rounds for %d variables down to %d" % (rounds, n0, mnv))
        reps = dict(res.replacements)
        sim.check(len(reps) == rounds, "replacements-count", lambda: "%r after %d rounds" % (reps, rounds))
        sim.check(not use_last or last.calls == 1, "final-solver-calls", "%d" % last.calls)
        seq = list(inner.specs) + (list(last.specs) if use_last else [])

        def unroll(vals, upto):
            """Complete a survivor assignment with the replacements."""
            vals = dict(vals)

            def val(nm, depth=0):
                if nm in vals:
                    return vals[nm]
                sim.check(nm in reps and depth <= n0, "unresolvable-variable", lambda: "%r in %r" % (nm, reps))
                y, sg = reps[nm]
                sim.check(sg in (1, -1), "replacement-sign", repr(reps))
                v = val(y, depth + 1)
                vals[nm] = v if sg == 1 else 1 - v
                return vals[nm]

            return [val(nm) for nm in names0]

        prev = None
        signs = []
        for r, s in enumerate(seq):
            names = [v[0] for v in s.vars]
            if r == 0:
                sim.check(names == names0, "first-program-variables", "%r vs %r" % (names, names0))
            sim.check(all(v[1] == "b" and v[2] == 0 and v[3] == 1 for v in s.vars), "reduced-program-domain",
                      lambda: "round %d: %r" % (r, s.vars))
            sim.check(not s.lcons and not s.qcons, "reduced-program-constraints", "")
            if prev is not None:
                gone = [nm for nm in prev if nm not in names]
                sim.check(len(gone) == 1 and [nm for nm in prev if nm in names] == names, "one-variable-per-round",
                          lambda: "%r -> %r" % (prev, names))
            for b in itertools.product((0, 1), repeat=len(names)):
                fx = unroll(dict(zip(names, b)), r)
                sim.check(close(s.f(b) * s.sense, full.f(fx) * full.sense, 1e-6), "reduced-energy",
                          lambda: "round %d: objective %r at %r but full program has %r at %r (replacements %r)" % (
                              r, s.f(b), dict(zip(names, b)), full.f(fx), fx, reps))
            prev = names
        # each elimination follows a strongest correlation of the answer of its round
        for r in range(rounds):
            names = [v[0] for v in inner.specs[r].vars]
            nxt = [v[0] for v in seq[r + 1].vars] if r + 1 < len(seq) else None
            samples = [([round(float(v)) for v in s.x], float(s.probability)) for s in inner.results[r].samples]
            corr = {}
            for a in range(len(names)):
                for b in range(a):
                    corr[frozenset((names[a], names[b]))] = sum(p if x_[a] == x_[b] else -p for x_, p in samples)
            if nxt is not None:
                gone = [nm for nm in names if nm not in nxt]
            else:
                later = set()
                gone = [nm for nm in names if nm in reps and nm not in later]
                gone = gone if len(gone) == 1 else [nm for nm in gone]
            if len(gone) != 1:
                # the last elimination when the final solver is not observable
                sim.check(nxt is None, "one-variable-per-round", repr(gone))
                continue
            i = gone[0]
            j, sg = reps[i]
            sim.check(j in names and j != i, "replacement-target", lambda: "%s -> %r among %r" % (i, reps[i], names))
            c = corr[frozenset((i, j))]
            m = max(abs(v) for v in corr.values())
            sim.check(abs(c) >= m - 1e-9, "not-the-strongest-correlation",
                      lambda: "round %d replaced %s by %s with correlation %r, strongest is %r" % (r, i, j, c, m))
            sim.check(abs(c) <= 1e-9 or (c > 0) == (sg == 1), "correlation-sign",
                      lambda: "round %d: correlation %r of %s,%s but sign %d" % (r, c, i, j, sg))
            signs.append(sg)
        # the answer
        if use_last:
            fin = dict(zip([v[0] for v in last.specs[0].vars], [float(v) for v in last.results[0].x]))
            fx = unroll(fin, rounds)
            want = decode(ref, fx)
            sim.check(all(close(a, b) for a, b in zip(x, want)), "unrolled-values",
                      lambda: "x=%r but final answer %r with replacements %r decodes to %r" % (x, fin, reps, want))
        else:
            free = [nm for nm in names0 if nm not in reps]
            best = None
            cands = []
            for b in itertools.product((0, 1), repeat=len(free)):
                fx = unroll(dict(zip(free, b)), rounds)
                v = full.sense * full.f(fx)
                cands.append((v, decode(ref, fx)))
                best = v if best is None else min(best, v)
            sim.check(any(all(close(a, c) for a, c in zip(x, w)) for v, w in cands if v <= best + 1e-6), "not-the-remaining-optimum",
                      lambda: "x=%r, replacements %r" % (x, reps))
        if hist == IntermediateResult.ALL_ITERATIONS:
            sim.check(len(res.history[0]) == rounds and all(a is b for a, b in zip(res.history[0], inner.results)), "history", "")
        elif hist == IntermediateResult.NO_ITERATIONS:
            sim.check(not res.history[0] and res.history[1] is None, "history", "")
        if rounds >= 2:
            sim.probe("nontrivial")
        sim.state(n0, rounds, tuple(signs), tuple(kinds), spec.sense)
