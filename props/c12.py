"""C12: seeded runs are reproducible and isolated from other randomness."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from sim import core, gen, sched, seams, worlds, zoo

RUNS = {"quick": 1500, "thorough": 60000}
BATCH = 25
CPU_LIMIT = 120
RULE = ("one run = 2-4 seeded entry points (random instances, random graphs, optimizers) executed repeatedly in a drawn interleaving with "
        "other consumers of the three ambient generators, under the line-level scheduler for objects owning their seed; plus a bundle "
        "of entry points executed in fresh interpreters with different hash seeds. Non-trivial when an entry point was executed again "
        "after other randomness had been consumed; distinct by digest of the event log")
REAL = ["random instance generators", "all optimizers", "numpy / random / algorithm_globals generators", "networkx", "scipy local searches",
        "fresh interpreters with their own hash seeds"]
STUB = ["eigensolvers, quantum backend, SDP solver (deterministic stand-ins)", "thread scheduling", "other consumers of randomness"]
STATE_MEASURE = "hash of (entry point kinds, order of executions and interfering draws)"
ASSUMPTIONS = ["entry points that document the ambient generators as their source are re-executed after re-seeding those generators",
               "classical eigensolver with degenerate ground states: only the value is compared"]


def reseed(s):
    from qiskit.utils import algorithm_globals

    random.seed(s)
    np.random.seed(s)
    algorithm_globals.random_seed = s


def reseed_documented(s):
    """Only the generator the quantum algorithms are documented to use is seeded; the others are left in any state."""
    from qiskit.utils import algorithm_globals

    algorithm_globals.random_seed = s


def ambient_state():
    from qiskit.utils import algorithm_globals

    return (hash(random.getstate()), repr(np.random.get_state()), repr(algorithm_globals.random.bit_generator.state))


def graph_view(g):
    return (sorted((n, tuple(round(float(c), 9) for c in d.get("pos", ()))) for n, d in g.nodes(data=True)),
            sorted((min(a, b), max(a, b), d.get("weight")) for a, b, d in g.edges(data=True)))


def view(res):
    """The whole result, samples in the order they are listed."""
    def r(v):
        return None if v is None else round(float(v), 9)

    listed = []
    for ss in (res.samples, getattr(res, "raw_samples", None)):
        listed.append(None if ss is None else [(tuple(r(v) for v in a.x) if a.x is not None else None, r(a.fval), r(a.probability),
                                                a.status.name) for a in ss])
    return zoo.result_view(res), listed


# the quantum algorithms draw from algorithm_globals only (the classical multi-start optimizers draw from numpy)
DOCUMENTED = ("grover", "meo", "recursive", "recursive-sim")


class Entry:
    """`run()` executes the entry point with its seed; `own` = needs no re-seeding and must not touch the ambient generators;
    `other` = the same entry point with another seed, if the outcome must then differ."""

    def __init__(self, name, run, own=False, reseed_with=None, other=None, instance=False):
        self.name, self.run, self.own, self.reseed_with, self.other, self.instance = name, run, own, reseed_with, other, instance

    def execute(self):
        if self.reseed_with is not None:
            (reseed_documented if self.name in DOCUMENTED else reseed)(self.reseed_with)
        return self.run()


def entries(sim, n):
    return [entry(sim, sim.pick(["tsp", "vrp", "graph", "gw", "gw", "tsp-ambient", "grover", "slsqp", "cobyla", "meo", "recursive",
                                 "admm", "warmstart", "gw-hold", "measured", "measured"])) for _ in range(n)]


def entry(sim, kind):
    from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer
    from qiskit_optimization.applications import Maxcut, Tsp, VehicleRouting

    seed = sim.pick([0, 1, 7, 123, 2 ** 31 - 1])
    if kind in ("tsp", "tsp-ambient"):
        k, lo = 2 + sim.draw(5), sim.pick([0, -50, 10])
        hi = lo + sim.pick([100, 1000])
        if kind == "tsp-ambient":
            return Entry("tsp-ambient(%d)" % k, lambda: graph_view(Tsp.create_random_instance(k, lo, hi).graph), reseed_with=seed)
        return Entry("tsp(%d,%d,%d,seed=%d)" % (k, lo, hi, seed), lambda: graph_view(Tsp.create_random_instance(k, lo, hi, seed).graph),
                     other=lambda: graph_view(Tsp.create_random_instance(k, lo, hi, seed=seed + 1).graph), instance=True)
    if kind == "vrp":
        k, lo = 2 + sim.draw(5), sim.pick([0, -50, 10])
        hi = lo + 1000
        nv, dep = 1 + sim.draw(2), sim.draw(2)

        def mk(s):
            v = VehicleRouting.create_random_instance(k, lo, hi, s, nv, dep)
            return (graph_view(v.graph), v.num_vehicles, v.depot)

        return Entry("vrp(%d,seed=%d)" % (k, seed), lambda: mk(seed), other=lambda: mk(seed + 1), instance=True)
    if kind == "graph":
        k = 7 + sim.draw(3)
        m = k + sim.draw(k)
        return Entry("graph(%d,%d,seed=%d)" % (k, m, seed), lambda: graph_view(Maxcut.random_graph(k, m, seed)), own=True, instance=True,
                     other=lambda: [graph_view(Maxcut.random_graph(k, m, s)) for s in range(seed + 1, seed + 4)])
    if kind in ("gw", "gw-hold"):
        spec = zoo.program(sim, "gw")
        p = spec.build()
        nc, so, un = sim.pick([3, 1, 8]), sim.chance(0.5), sim.chance(0.5)
        if kind == "gw-hold":  # built once, used later
            opt = GoemansWilliamsonOptimizer(nc, sort_cuts=so, unique_cuts=un, seed=seed)
            return Entry("gw-hold(seed=%d)" % seed, lambda: view(opt.solve(p)), own=True)

        def solve(s, k=nc, so=so, un=un):
            return view(GoemansWilliamsonOptimizer(k, sort_cuts=so, unique_cuts=un, seed=s).solve(p))

        def seq(s):  # the unsorted sequence of many cuts
            res = GoemansWilliamsonOptimizer(40, sort_cuts=False, unique_cuts=False, seed=s).solve(p)
            return [[int(v) for v in a.x] for a in res.samples]

        other = None
        if len(spec.vars) >= 3:
            other = lambda: ("differ", seq(seed), seq(seed + 1))
        return Entry("gw(seed=%d)" % seed, lambda: solve(seed), own=True, other=other)
    if kind == "measured":
        # an eigensolver that reports a fixed measured distribution, often with many equally good outcomes
        from qiskit_optimization.algorithms import MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer

        spec = gen.discrete(sim, max_vars=4, max_bits=6)
        if sim.chance(0.5):
            spec.lin = {i: 1.0 for i in range(len(spec.vars))}
            spec.quad = {}
        p = spec.build()
        how, fmt, rec, k = sim.pick(["noisy", "uniform", "exact-all", "garbage"]), sim.pick(worlds.FORMATS), sim.chance(0.2), sim.draw(1000)

        def solve_measured():
            opt = MinimumEigenOptimizer(worlds.SimEigensolver(core.Sim(k), plan=lambda i: how, fmts=[fmt]))
            if rec:
                last = MinimumEigenOptimizer(worlds.SimEigensolver(core.Sim(k), plan=lambda i: "exact-all", fmts=[fmt]))
                opt = RecursiveMinimumEigenOptimizer(opt, min_num_vars=1, min_num_vars_optimizer=last)
            return view(opt.solve(p))

        return Entry("measured(%s,%s)" % (how, fmt), solve_measured, own=True)
    c = zoo.case(sim, kind)
    p = c.spec.build()

    if sim.chance(0.4):  # built once, before the documented generators are seeded, and used again and again
        kept = c.make(zoo.Ctl(sim))
        return Entry("%s" % kind, lambda: view(kept.solve(p)), reseed_with=seed)

    def go():
        v = view(c.make(zoo.Ctl(sim)).solve(p))
        return v

    return Entry("%s" % kind, go, reseed_with=seed)


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("error", type(e).__name__)


def disturb(sim):
    """Other code consuming ambient randomness."""
    from qiskit.utils import algorithm_globals

    k = sim.draw(6)
    if k == 0:
        random.random()
    elif k == 1:
        np.random.rand(1 + sim.draw(3))
    elif k == 2:
        algorithm_globals.random.random(1 + sim.draw(3))
    elif k == 3:
        reseed(sim.draw(1000))
    elif k == 4:
        np.random.seed(sim.draw(5))
    else:
        random.seed(sim.draw(5))
    return k


def run(sim):
    es = entries(sim, 2 + sim.draw(3))
    sim.ev("entries", [e.name for e in es])
    path = []
    with zoo.Foreign(lambda: None):
        first = [outcome(e.execute) for e in es]
        for i, f in enumerate(first):
            sim.ev("first", es[i].name, f)
        for _ in range(3 + sim.draw(6)):
            k = sim.draw(len(es) + 2)
            if k >= len(es):
                path.append("d%d" % disturb(sim))
                sim.fault("ambient-randomness-consumed")
                continue
            e = es[k]
            before = ambient_state() if e.own else None
            got = outcome(e.execute)
            path.append(k)
            if len(path) > 1:
                sim.probe("nontrivial")
            sim.check(got == first[k], "not-reproducible", lambda: "%s gave %r first and %r after %r" % (e.name, first[k], got, path))
            if before is not None:
                sim.check(ambient_state() == before, "ambient-randomness-disturbed", lambda: "by %s" % e.name)
        # another seed is another instance
        e = es[sim.draw(len(es))]
        if e.other is not None and first[es.index(e)][0] == "ok":
            o = e.other()
            if isinstance(o, tuple) and o and o[0] == "differ":
                sim.check(o[1] != o[2], "seed-ignored", lambda: "%s: the same 40 cuts for another seed" % e.name)
            elif isinstance(o, list):
                sim.check(any(v != first[es.index(e)][1] for v in o), "seed-ignored", lambda: e.name)
            else:
                sim.check(o != first[es.index(e)][1], "seed-ignored", lambda: "%s: the same instance for another seed" % e.name)
            sim.probe("other-seed-checked")
        # concurrently with other consumers, for those owning their seed
        own = [i for i, e in enumerate(es) if e.own]
        if own and sim.chance(0.4):
            i = own[sim.draw(len(own))]
            s = sched.Sched(sim, on_switch=lambda: disturb(sim))

            def noise():
                reseed(3)
                return [outcome(es[j].run)[0] for j in own]

            with zoo.Foreign(lambda: None, atomic=s.atomic):
                results, errors = s.run([lambda: outcome(es[i].run), noise])
            for er in errors:
                if er is not None:
                    raise er
            sim.check(results[0] == first[i], "not-reproducible-concurrently",
                      lambda: "%s gave %r alone and %r among other consumers of randomness" % (es[i].name, first[i], results[0]))
            sim.fault("ambient-randomness-consumed-at-switch", s.switches)
            sim.probe("nontrivial")
            path.append(("sched", s.switches))
    sim.ev("path", path)
    sim.state(tuple(e.name.split("(")[0] for e in es), tuple(path))


OWN = ["tsp", "vrp", "graph", "gw", "tsp-ambient"]


# ---- fresh interpreters --------------------------------------------------------------------------------------------------
def bundle(seed, order):
    """Digests of many entry points, computed in this interpreter; `order` rotates the order of execution."""
    from sim import core

    sim = core.Sim(seed)
    out = {}
    with seams.World(sim, ambient_seed=5), zoo.Foreign(lambda: None):
        jobs = []
        for kind in OWN + ["measured"] * 8 + [k for k in zoo.ALL if k not in ("meo-numpy", "gw")]:
            for r in range(3):
                e = entry(sim, kind) if kind in OWN or kind == "measured" else None
                if e is None:
                    c = zoo.case(sim, kind)
                    p = c.spec.build()
                    if r == 0:  # built before the documented generators are seeded
                        e = Entry(kind, lambda o=c.make(zoo.Ctl(sim)), p=p: view(o.solve(p)), reseed_with=11)
                    else:
                        e = Entry(kind, lambda c=c, p=p: view(c.make(zoo.Ctl(sim)).solve(p)), reseed_with=11)
                jobs.append(("%s/%d" % (kind, len(jobs)), e.execute))
        from props.c10 import helpers
        for r in range(4):
            spec = gen.discrete(sim, max_vars=4, max_bits=8)
            p = spec.build()
            for nm, fn in helpers(sim, spec):
                if nm != "repr":  # object addresses are not part of the promise
                    jobs.append(("helper-%s/%d" % (nm, r), lambda fn=fn, p=p: fn(p)))
        for nm, fn in applications(sim):
            jobs.append((nm, fn))
        assert len({j[0] for j in jobs}) == len(jobs)
        k = order % len(jobs)
        for nm, fn in jobs[k:] + jobs[:k]:
            reseed(13)
            if nm.split("/")[0] in DOCUMENTED:
                random.seed(17 + order), np.random.seed(17 + order)  # differ between the interpreters
            out[nm] = hashlib.sha256(repr(outcome(fn)).encode()).hexdigest()[:16]
    return out


def applications(sim):
    """Program built and interpretation of a fixed assignment, per application."""
    import networkx as nx
    from qiskit_optimization.applications import (Clique, ExactCover, GraphPartition, Knapsack, Maxcut, NumberPartition, SetPacking,
                                                  StableSet, Tsp, VehicleRouting, VertexCover)

    g = nx.gnm_random_graph(5, 7, seed=3)
    for a, b in g.edges:
        g.edges[a, b]["weight"] = 1 + (a * 3 + b) % 4
    kg = nx.complete_graph(3)
    for a, b in kg.edges:
        kg.edges[a, b]["weight"] = 1 + a + 2 * b
    subsets = [[1, 4, 7], [1, 4], [4, 5, 7], [3, 5, 6], [2, 3, 6, 7], [2, 7]]
    named = [["apple", "pear"], ["pear", "fig"], ["fig"], ["apple", "kiwi"]]
    apps = [Clique(g), Clique(g, 3), ExactCover(subsets), ExactCover(named), GraphPartition(g), Knapsack([3, 4, 5, 6, 7], [2, 3, 4, 5, 6], 9), Maxcut(g),
            NumberPartition([8, 7, 6, 5, 4]), SetPacking(subsets), SetPacking(named), StableSet(g), Tsp(kg), VehicleRouting(kg, 1, 0), VertexCover(g)]

    def view(a):
        def fn():
            p = a.to_quadratic_program()
            x = np.array([(i * 7 + 3) % 5 < 2 for i in range(p.get_num_vars())], dtype=int)
            return (gen.snapshot(p), p.export_as_lp_string(), repr(a.interpret(x)))
        return fn

    return [("application-%s/%d" % (type(a).__name__, i), view(a)) for i, a in enumerate(apps)]


def spawn(seed, order, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    code = ("import sys, json; sys.path.insert(0, %r); from sim import seams; seams.install(); "
            "from props import c12; print('BUNDLE ' + json.dumps(c12.bundle(%d, %d)))"
            % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), seed, order))
    return subprocess.Popen([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def collect(p):
    out, err = p.communicate(timeout=500)
    for line in out.splitlines():
        if line.startswith("BUNDLE "):
            return json.loads(line[7:])
    raise RuntimeError("bundle failed: %s" % err[-2000:])


def compare(seed, cfgs):
    procs = [spawn(seed, o, h) for o, h in cfgs]
    outs = [collect(p) for p in procs]
    bad = []
    for (o, h), d in zip(cfgs[1:], outs[1:]):
        for k in sorted(outs[0]):
            if outs[0][k] != d.get(k):
                bad.append((k, cfgs[0], (o, h)))
    return outs, bad


def extra(ctx):
    n = 2 if ctx["tier"] == "quick" else 12
    per = min(6, ctx["workers"])
    violations, digests, items = [], [], 0
    for r in range(n):
        seed = ctx["seed"] * 1000 + r
        cfgs = [((i * 17) if i else 0, (i * 101 + r) % 4294967295) for i in range(per)]
        outs, bad = compare(seed, cfgs)
        items += sum(len(o) for o in outs)
        for i, o in enumerate(outs):
            digests.append((-1 - r * 100 - i, hashlib.sha256(json.dumps([o, i]).encode()).hexdigest()[:24], True))
        if bad:
            k, a, b = bad[0]
            violations.append(("differs-across-processes", "%s (and %d more) differ between (order, hash seed) %r and %r" % (k, len(bad) - 1, a, b),
                               {"seed": seed, "cfgs": [a, b], "item": k}))
            break
    return {"violations": violations, "digests": digests, "runs": n * per,
            "faults": {"fresh-interpreter-hash-seed": n * per},
            "coverage": {"fresh_interpreters": n * per, "entry_points_compared_across_interpreters": items}}


def replay_extra(obj):
    e = obj["extra"]
    _, bad = compare(e["seed"], [tuple(c) for c in e["cfgs"]])
    for b in bad:
        print("  | differs: %r" % (b,))
    if bad:
        print("VIOLATION property=C12 replay=%s" % obj.get("replay_command", "").split()[-1])
        return 1
    print("replay: no violation")
    return 0
