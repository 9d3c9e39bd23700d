"""C16: applications read any solver outcome back honestly."""
import copy
import itertools
import math

import numpy as np

from sim import gen, worlds
from sim.core import close

RUNS = {"quick": 6000, "thorough": 250000}
BATCH = 30
RULE = ("one run = one application instance (graph, sets, items, cities), optionally reconfigured in the middle, and a history of "
        "assignments delivered by a noisy solver: valid objects, valid objects with flipped bits, random strings, as arrays of several "
        "types, as results, through a noisy eigensolver solve, or as counts / state vectors / state functions. Program verdict and score, "
        "and the object read back, are compared with an independent combinatorial model. Non-trivial when a corrupted or sampled "
        "assignment was read back; distinct by digest of the event log")
REAL = ["all application classes", "QuadraticProgram", "docplex", "MinimumEigenOptimizer with its converters (solve mode)", "networkx"]
STUB = ["the solver: assignments, noise and states decided by the simulator"]
STATE_MEASURE = "hash of (application, size, delivery, validity of the assignment, number of selected elements)"
ASSUMPTIONS = ["nodes are numbered from 0", "the two groups of a partition are unordered", "graph partition: one half has floor(n/2) nodes and is the one marked 1",
               "the most frequent outcome of a sampled state function is only claimed when it is clearly the most likely"]


def flat_pair(res):
    return sorted([sorted(res[0]), sorted(res[1])]) if len(res) == 2 else ("not two groups", res)


def graph(sim, weights=True, complete=False, nmax=6, nmin=1):
    """(n, {(i,j): w or None}, object to hand to the package)"""
    import networkx as nx

    n = nmin + sim.draw(nmax - nmin + 1)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    e = {}
    for q in pairs:
        if complete or sim.chance(0.55):
            e[q] = sim.pick([1, 2, 5, 0.5, 3, 10] if complete else [1, 2, -1, 0.5, 3, -2.5]) if weights else None
    style = sim.draw(4)
    if style == 3 and e and set(v for q in e for v in q) == set(range(n)):
        # a list of edges, nodes appearing in any order
        lst = [(a, b, {} if w is None else {"weight": w}) for (a, b), w in e.items()]
        lst = [lst.pop(sim.draw(len(lst))) for _ in range(len(lst))]
        return n, e, [((b, a) if sim.chance(0.5) else (a, b)) + (d,) for a, b, d in lst]
    if style == 2:
        m = np.zeros((n, n))
        for (i, j), w in e.items():
            m[i, j] = m[j, i] = 1 if w is None else w
        return n, e, m
    g = nx.Graph()
    order = list(range(n))
    if style == 1:
        order = [order.pop(sim.draw(len(order))) for _ in range(n)]
    g.add_nodes_from(order)
    for (i, j), w in e.items():
        a, b = (j, i) if sim.chance(0.5) else (i, j)
        if w is None:
            g.add_edge(a, b)
        else:
            g.add_edge(a, b, weight=w)
    return n, e, g


class App:
    """Independent model of one application instance."""
    sense = None
    n = 0
    config = staticmethod(lambda sim: None)

    def valid(self, b):
        raise NotImplementedError

    def value(self, b):
        return None

    def read(self, b):
        """canonical form of the object the assignment selects"""
        return sorted(i for i, v in enumerate(b) if v)

    def canon(self, res, b):
        return sorted(res)

    def objects(self, sim):
        """one assignment, likely valid"""
        return [sim.draw(2) for _ in range(self.n)]


class GraphApp(App):
    weights = False

    def __init__(self, sim):
        self.n, self.e, self.arg = graph(sim, self.weights and sim.chance(0.8), nmax=6 if not sim.chance(0.08) else 13)

    def w(self, q):
        return 1 if self.e[q] is None else self.e[q]

    def cut(self, b):
        return sum(self.w((i, j)) for (i, j) in self.e if b[i] != b[j])


class MaxcutA(GraphApp):
    name, sense, weights = "Maxcut", -1, True

    def make(self):
        from qiskit_optimization.applications import Maxcut
        return Maxcut(self.arg)

    def valid(self, b):
        return True

    def value(self, b):
        return self.cut(b)

    def read(self, b):
        return sorted([[i for i in range(self.n) if b[i]], [i for i in range(self.n) if not b[i]]])

    def canon(self, res, b):
        return flat_pair(res)


class PartitionA(MaxcutA):
    name, sense = "GraphPartition", 1

    def make(self):
        from qiskit_optimization.applications import GraphPartition
        return GraphPartition(self.arg)

    def valid(self, b):
        return sum(b) == self.n // 2

    def objects(self, sim):
        idx = list(range(self.n))
        on = {idx.pop(sim.draw(len(idx))) for _ in range(self.n // 2)}
        return [int(i in on) for i in range(self.n)]


class CoverA(GraphApp):
    name, sense = "VertexCover", 1

    def make(self):
        from qiskit_optimization.applications import VertexCover
        return VertexCover(self.arg)

    def valid(self, b):
        return all(b[i] or b[j] for i, j in self.e)

    def value(self, b):
        return sum(b)

    def objects(self, sim):
        b = [sim.draw(2) for _ in range(self.n)]
        for i, j in self.e:
            if not (b[i] or b[j]):
                b[sim.pick([i, j])] = 1
        return b


class StableA(CoverA):
    name, sense = "StableSet", -1

    def make(self):
        from qiskit_optimization.applications import StableSet
        return StableSet(self.arg)

    def valid(self, b):
        return not any(b[i] and b[j] for i, j in self.e)

    def objects(self, sim):
        return [1 - v for v in CoverA.objects(self, sim)]


class CliqueA(GraphApp):
    name = "Clique"

    def __init__(self, sim):
        super().__init__(sim)
        self.size = sim.pick([None, None, 2, 3, 1, 0])
        self.sense = -1 if self.size is None else None

    def make(self):
        from qiskit_optimization.applications import Clique
        return Clique(self.arg) if self.size is None else Clique(self.arg, self.size)

    def reconfigure(self, sim, app):
        self.size = sim.pick([None, 1, 2, 3])
        self.sense = -1 if self.size is None else None
        app.size = self.size
        return "size=%r" % self.size

    def shown(self, app):
        return app.size == self.size

    def valid(self, b):
        on = [i for i in range(self.n) if b[i]]
        return all((i, j) in self.e for i, j in itertools.combinations(on, 2)) and (self.size is None or len(on) == self.size)

    def value(self, b):
        return sum(b) if self.size is None else None

    def objects(self, sim):
        on = []
        for i in [sim.draw(self.n) for _ in range(self.n)]:
            if i not in on and all((min(i, j), max(i, j)) in self.e for j in on) and (self.size is None or len(on) < self.size):
                on.append(i)
        return [int(i in on) for i in range(self.n)]


class KnapsackA(App):
    name, sense = "Knapsack", -1

    def __init__(self, sim):
        self.n = 1 + sim.draw(6) if not sim.chance(0.06) else 7 + sim.draw(6)
        self.v = [sim.pick([1, 3, 4, 10, 2.5, 0]) for _ in range(self.n)]
        self.w = [sim.pick([1, 2, 3, 5, 1.5, 0]) for _ in range(self.n)]
        self.cap = sim.draw(12)
        self.arg = (self.v, self.w)

    def make(self):
        from qiskit_optimization.applications import Knapsack
        return Knapsack(self.v, self.w, self.cap)

    def reconfigure(self, sim, app):
        self.cap = sim.draw(10)
        app.max_weight = self.cap
        return "max_weight=%r" % self.cap

    def shown(self, app):
        return app.max_weight == self.cap

    def valid(self, b):
        return sum(w for w, x in zip(self.w, b) if x) <= self.cap + 1e-9

    def value(self, b):
        return sum(v for v, x in zip(self.v, b) if x)

    def objects(self, sim):
        b, left = [0] * self.n, self.cap
        for i in [sim.draw(self.n) for _ in range(self.n)]:
            if not b[i] and self.w[i] <= left:
                b[i] = 1
                left -= self.w[i]
        return b


class NumbersA(App):
    name = "NumberPartition"

    def __init__(self, sim):
        self.n = 1 + sim.draw(6) if not sim.chance(0.06) else 7 + sim.draw(6)
        self.num = [sim.pick([1, 2, 3, 8, 5, 13, 0, 2]) for _ in range(self.n)]
        if sim.chance(0.5):  # a set that can be divided
            half = sum(self.num) % 2
            self.num = self.num + [half] if half else self.num
            self.n = len(self.num)
        self.arg = self.num

    def make(self):
        from qiskit_optimization.applications import NumberPartition
        return NumberPartition(self.num)

    def valid(self, b):
        return 2 * sum(v for v, x in zip(self.num, b) if x) == sum(self.num)

    def read(self, b):
        return sorted([sorted(v for v, x in zip(self.num, b) if x), sorted(v for v, x in zip(self.num, b) if not x)])

    def canon(self, res, b):
        return flat_pair(res)

    def objects(self, sim):
        good = [b for b in itertools.product((0, 1), repeat=self.n) if self.valid(b)]
        return list(sim.pick(good)) if good else App.objects(self, sim)


class PackA(App):
    name, sense = "SetPacking", -1

    def __init__(self, sim):
        k = 1 + sim.draw(5)
        names = sim.chance(0.2)
        base = ["a", "b", "cc", "d", "e", "f"] if names else [1, 2, 3, 4, 7, 10]
        self.sets = []
        for _ in range(k):
            s = [base[i] for i in range(len(base)) if sim.chance(0.35)]
            if not s or sim.chance(0.1):
                s = [sim.pick(base)]
            if sim.chance(0.1):
                s = s + [s[0]]  # an element listed twice
            self.sets.append(s)
        if sim.chance(0.3):  # a partition of the ground set
            rest = sorted(set(x for s in self.sets for x in s) - set(self.sets[0]), key=str)
            if rest:
                self.sets.append(rest)
        self.n = len(self.sets)
        self.arg = self.sets

    def make(self):
        from qiskit_optimization.applications import SetPacking
        return SetPacking(self.sets)

    def counts(self, b):
        c = {x: 0 for s in self.sets for x in s}
        for s, v in zip(self.sets, b):
            if v:
                for x in set(s):
                    c[x] += 1
        return c.values()

    def valid(self, b):
        return all(c <= 1 for c in self.counts(b))

    def value(self, b):
        return sum(b)

    def read(self, b):
        return sorted((list(s) for s, v in zip(self.sets, b) if v), key=repr)

    def canon(self, res, b):
        return sorted((list(s) for s in res), key=repr)

    def objects(self, sim):
        b = [0] * self.n
        for i in [sim.draw(self.n) for _ in range(self.n + 1)]:
            b[i] = 1
            if not PackA.valid(self, b):
                b[i] = 0
        return b


class ExactA(PackA):
    name, sense = "ExactCover", 1

    def make(self):
        from qiskit_optimization.applications import ExactCover
        return ExactCover(self.sets)

    def valid(self, b):
        return all(c == 1 for c in self.counts(b))


class TspA(App):
    name, sense = "Tsp", 1

    def __init__(self, sim):
        self.c, self.e, self.arg = graph(sim, complete=True, nmin=2, nmax=4 if not sim.chance(0.06) else 7)
        self.n = self.c ** 2

    def make(self):
        from qiskit_optimization.applications import Tsp
        return Tsp(self.arg)

    def steps(self, b):
        return [[i for i in range(self.c) if b[i * self.c + k]] for k in range(self.c)]

    def valid(self, b):
        s = self.steps(b)
        return all(len(p) == 1 for p in s) and len({p[0] for p in s}) == self.c

    def value(self, b):
        t = [p[0] for p in self.steps(b)]
        return sum(self.e[tuple(sorted((t[i], t[(i + 1) % self.c])))] for i in range(self.c))

    def read(self, b):
        return self.steps(b)

    def canon(self, res, b):
        return [sorted(int(v) for v in p) if isinstance(p, (list, tuple)) else [int(p)] for p in res]

    def objects(self, sim):
        idx = list(range(self.c))
        t = [idx.pop(sim.draw(len(idx))) for _ in range(self.c)]
        b = [0] * self.n
        for k, i in enumerate(t):
            b[i * self.c + k] = 1
        return b


class RouteA(App):
    name, sense = "VehicleRouting", 1

    def __init__(self, sim):
        self.c, self.e, self.arg = graph(sim, complete=True, nmin=2, nmax=4 if sim.chance(0.8) else 5 if sim.chance(0.8) else 7)
        self.pairs = [(i, j) for i in range(self.c) for j in range(self.c) if i != j]
        self.n = len(self.pairs)
        self.k = 1 + sim.draw(min(3, self.c - 1))
        self.depot = sim.draw(self.c)

    def make(self):
        from qiskit_optimization.applications import VehicleRouting
        return VehicleRouting(self.arg, self.k, self.depot)

    def reconfigure(self, sim, app):
        if sim.chance(0.5):
            self.k = 1 + sim.draw(min(3, self.c - 1))
            app.num_vehicles = self.k
            return "num_vehicles=%d" % self.k
        self.depot = sim.draw(self.c)
        app.depot = self.depot
        return "depot=%d" % self.depot

    def shown(self, app):
        return app.num_vehicles == self.k and app.depot == self.depot

    def edges(self, b):
        return [q for q, v in zip(self.pairs, b) if v]

    def valid(self, b):
        es = self.edges(b)
        nxt = {}
        for i, j in es:
            nxt.setdefault(i, []).append(j)
        if len(nxt.get(self.depot, [])) != self.k:
            return False
        if any(len(v) != 1 for i, v in nxt.items() if i != self.depot):
            return False
        seen = []
        for first in nxt[self.depot]:
            at = first
            while at != self.depot:
                if at in seen or at not in nxt:
                    return False
                seen.append(at)
                at = nxt[at][0]
        return sorted(seen) == [i for i in range(self.c) if i != self.depot] and len(es) == len(seen) + self.k

    def value(self, b):
        return sum(self.e[tuple(sorted(q))] for q in self.edges(b))

    def read(self, b):
        return sorted(self.edges(b))

    def canon(self, res, b):
        out = sorted((int(q[0]), int(q[1])) for r in res for q in r)
        if self.valid(b):
            if len(res) != self.k:
                return "%d routes instead of %d" % (len(res), self.k)
            for r in res:
                if not r or r[0][0] != self.depot or r[-1][1] != self.depot or any(r[i][1] != r[i + 1][0] for i in range(len(r) - 1)) \
                        or any(q[0] == self.depot for q in r[1:]):
                    return "route %r does not leave the depot %d once and return there" % (r, self.depot)
        return out

    def objects(self, sim):
        idx = [i for i in range(self.c) if i != self.depot]
        order = [idx.pop(sim.draw(len(idx))) for _ in range(self.c - 1)]
        cuts = set()
        while len(cuts) < self.k - 1:
            cuts.add(1 + sim.draw(len(order) - 1))
        on = []
        for r in np.split(np.array(order), sorted(cuts)):
            path = [self.depot, *[int(v) for v in r], self.depot]
            on += list(zip(path, path[1:]))
        return [int(q in on) for q in self.pairs]


APPS = [MaxcutA, PartitionA, CoverA, StableA, CliqueA, KnapsackA, NumbersA, PackA, ExactA, TspA, RouteA, RouteA]


def plain(v):
    if hasattr(v, "nodes"):
        return (sorted(map(repr, v.nodes(data=True))), sorted(map(repr, v.edges(data=True))))
    return copy.deepcopy(v.tolist() if isinstance(v, np.ndarray) else v)


def deliver(sim, bits):
    k = sim.draw(5)
    if k == 0:
        return np.array(bits)
    if k == 1:
        return np.array(bits, dtype=float)
    if k == 2:
        return np.array(bits, dtype=bool)
    if k == 3:
        return np.array(bits, dtype=np.int8)
    return np.array([-0.0 if not v else 1.0 for v in bits])


def check_program(sim, m, spec, b, every=False):
    x = [float(v) for v in b]
    sim.check(spec.feasible(x, 1e-9) == m.valid(b), "validity",
              lambda: "%s: assignment %r is %svalid, the program says otherwise: %r" % (m.name, b, "" if m.valid(b) else "in", spec.show()))
    if m.sense is not None and m.valid(b):
        v = m.value(b)
        sim.check(close(spec.f(x), v, 1e-9), "score", lambda: "%s: assignment %r scores %r, the object is worth %r" % (m.name, b, spec.f(x), v))


def read_back(sim, m, app, x, b, what):
    before = None if not isinstance(x, np.ndarray) else x.copy()
    got = app.interpret(x)
    if before is not None:
        sim.check(bool((before == x).all()), "array-changed", "interpret changed the array it was given")
    c, w = m.canon(got, b), m.read(b)
    sim.check(c == w, "misread", lambda: "%s (%s): assignment %r was read as %r, it selects %r" % (m.name, what, b, got, w))
    return got


def most_likely(sim, m, app):
    """The most likely outcome of a measured distribution, bit by bit."""
    n = min(m.n, 6) if not sim.chance(0.1) else min(m.n, 11)
    top = [sim.draw(2) for _ in range(n)]
    dist = worlds.random_dist(sim, n)
    dist = {b: p * 0.3 for b, p in dist.items() if list(b) != top}
    rest = sum(dist.values())
    dist[tuple(top)] = 1 - rest
    fmt = sim.pick(["counts", "counts", "vector", "realvector", "dictfn", "statefn"])
    if n >= 2 and fmt in ("counts", "vector", "realvector") and sim.chance(0.3):
        # a close race among many outcomes
        w = {b: 10000 + sim.draw(100) for b in itertools.product((0, 1), repeat=n) if list(b) != top}
        w[tuple(top)] = max(w.values()) + 1
        total = float(sum(w.values()))
        dist = {b: c / total for b, c in w.items()}
        counts = w
        sim.probe("close-race")
    else:
        counts = {b: int(round(p * 1024)) for b, p in dist.items()}
    if fmt == "counts":
        items = [("".join(str(v) for v in reversed(b)), c) for b, c in counts.items()]
        arg = dict([items.pop(sim.draw(len(items))) for _ in range(len(items))])
    else:
        arg = worlds.make_eigenstate(sim, fmt, dist, n)
    got = app.sample_most_likely(arg)
    sim.ev("most likely", fmt, n)
    sim.fault("readout-noise")
    sim.check([int(v) for v in got] == top and all(float(v) in (0.0, 1.0) for v in got), "most-likely-outcome",
              lambda: "%s: most likely outcome %r (variable 0 first) read as %r" % (fmt, top, got))


def run(sim):
    m = sim.pick(APPS)(sim)
    arg0 = plain(m.arg) if hasattr(m, "arg") else None
    app = m.make()
    sim.ev("app", m.name, m.n, getattr(m, "e", None) or arg0)
    kept = []
    rounds = 1 + (sim.draw(2) if hasattr(m, "reconfigure") else 0)
    first = None
    for r in range(rounds):
        if r:
            sim.ev("reconfigure", m.reconfigure(sim, app))
            sim.check(m.shown(app), "setting-lost", m.name)
        p = app.to_quadratic_program()
        spec = gen.spec_of(p)
        sim.check(len(spec.vars) == m.n and all(v[1] == "b" for v in spec.vars), "variables",
                  lambda: "%s: %r" % (m.name, spec.vars))
        if m.sense is not None:
            sim.check(spec.sense == m.sense, "sense", lambda: "%s: sense %r" % (m.name, spec.sense))
        snap = gen.snapshot(p)
        if m.n <= 6 and sim.chance(0.25):
            for b in itertools.product((0, 1), repeat=m.n):
                check_program(sim, m, spec, b)
            sim.probe("enumerated")
        for _ in range(2 + sim.draw(4)):
            b = list(m.objects(sim))
            how = sim.weighted([(2, "clean"), (4, "flipped"), (2, "random")])
            if how == "flipped":
                for _ in range(1 + sim.draw(3)):
                    b[sim.draw(m.n)] ^= 1
                sim.fault("bit-flip")
            elif how == "random":
                b = [sim.draw(2) for _ in range(m.n)]
                sim.fault("random-assignment")
            if how != "clean":
                sim.probe("nontrivial")
            check_program(sim, m, spec, b)
            if sim.chance(0.5):
                x = deliver(sim, b)
            else:
                x = worlds.make_result(p, b)
            got = read_back(sim, m, app, x, b, how)
            kept.append((copy.deepcopy(got), got, b))
            sim.ev("read", how, b)
            sim.state(m.name, m.n, how, m.valid(b), sum(b), type(x).__name__)
        if sim.chance(0.15) and solvable(m, spec):
            solve(sim, m, app, p, spec)
        if sim.chance(0.2):
            most_likely(sim, m, app)
        sim.check(gen.snapshot(app.to_quadratic_program()) == snap, "program-changed",
                  lambda: "%s: the program built again differs" % m.name)
        sim.check(gen.snapshot(p) == snap, "earlier-program-changed", m.name)
    for cp, got, b in kept:
        sim.check(repr(cp) == repr(got), "earlier-reading-changed", lambda: "%s: %r became %r" % (m.name, cp, got))
    if arg0 is not None:
        sim.check(plain(m.arg) == arg0, "input-changed", lambda: "%s: the input %r became %r" % (m.name, arg0, plain(m.arg)))
    if isinstance(m, TspA):
        tour = [sim.draw(m.c) for _ in range(1 + sim.draw(m.c + 1))]
        adj = np.zeros((m.c, m.c))
        for (i, j), w in m.e.items():
            adj[i, j], adj[j, i] = w, w
        want = sum(adj[tour[i], tour[(i + 1) % len(tour)]] for i in range(len(tour)))
        sim.check(close(app.tsp_value(tour, adj), want, 1e-9), "tour-length", lambda: "%r: %r, should be %r" % (tour, app.tsp_value(tour, adj), want))
    if type(m) is MaxcutA:
        b = [sim.draw(2) for _ in range(m.n)]
        got = app.get_gset_result(np.array(b))
        sim.check({int(k): int(v) for k, v in got.items()} == {i + 1: 1 - v for i, v in enumerate(b)}, "gset-result", lambda: "%r: %r" % (b, got))


def solvable(m, spec):
    """Small enough to be converted to at most ten qubits, with integer coefficients."""
    bits = m.n
    for c in spec.lcons:
        if any(v != int(v) for v in c[1].values()) or c[3] != int(c[3]):
            return False
        if c[2] != "==":
            lo = sum(min(0, v) for v in c[1].values())
            hi = sum(max(0, v) for v in c[1].values())
            span = c[3] - lo if c[2] == "<=" else hi - c[3]
            if span < 0:
                return False
            bits += int(span).bit_length()
    return bits <= 10


def solve(sim, m, app, p, spec):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer

    how = sim.weighted([(2, "noisy"), (1, "single-shot"), (1, "uniform"), (1, "exact")])
    es = worlds.SimEigensolver(sim, plan=lambda i: how)
    res = MinimumEigenOptimizer(es).solve(p)
    b = [int(round(v)) for v in res.x]
    sim.probe("nontrivial")
    sim.probe("solved")
    read_back(sim, m, app, res, b, "solve " + how)
    sim.state(m.name, "solve", how, m.valid(b))
    x0 = [float(v) for v in b]
    sim.check(m.valid(b) == (res.status.name == "SUCCESS"), "status", lambda: "%s: %r is reported as %s" % (m.name, b, res.status.name))
    for s in res.samples:
        sb = [int(round(v)) for v in s.x]
        read_back(sim, m, app, np.array(s.x), sb, "sample")
    if m.sense is not None and m.valid(b):
        sim.check(close(res.fval, m.value(b), 1e-9), "score", lambda: "%s: result %r claims %r, the object is worth %r" % (m.name, b, res.fval, m.value(b)))
    if how == "exact":
        best = None
        for c in itertools.product((0, 1), repeat=m.n):
            if m.valid(c):
                v = 0 if m.sense is None else m.sense * m.value(c)
                best = v if best is None else min(best, v)
        if best is not None:
            sim.check(m.valid(b), "no-valid-object", lambda: "%s: exact solver, yet %r is not valid" % (m.name, b))
            if m.sense is not None:
                sim.check(close(m.sense * m.value(b), best, 1e-9), "not-optimal", lambda: "%s: %r is worth %r, best is %r" % (m.name, b, m.value(b), m.sense * best))
