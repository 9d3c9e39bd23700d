"""C11: optimizers and converters carry nothing over from earlier calls."""
import random

import numpy as np
from qiskit.utils import algorithm_globals

from sim import gen, sched, zoo
from sim.core import SimFault, close

RUNS = {"quick": 1400, "thorough": 40000}
BATCH = 20
CPU_LIMIT = 120
RULE = ("one run = one optimizer or converter object used on a history of 2-6 calls over 2-3 programs, each call healthy, failing by a "
        "component fault at a drawn call index, refused (incompatible program) or interrupted at a drawn source line; every healthy "
        "call is compared with a fresh object of the same configuration (and with brute force for exact solvers). Non-trivial when a "
        "healthy call followed at least one earlier call; distinct by digest of the event log")
REAL = ["all optimizers and converters of the package", "QuadraticProgram", "SLSQP/COBYLA/CPLEX", "qiskit Grover circuits"]
STUB = ["eigensolvers, backend, sub-optimizers, SDP solver (deterministic stand-ins)", "failures and interrupts",
        "ambient generators (reset to the same state for both objects)"]
STATE_MEASURE = "hash of (object kind, sequence of (program index, outcome of the call))"
ASSUMPTIONS = ["the ambient random generators are in the same state for the compared calls"]


class Ref:
    """The controller an object was built with; each call installs its own plan."""

    def __init__(self):
        self.cur = None

    def step(self, comp, kinds):
        return self.cur.step(comp, kinds)

    @property
    def sim(self):
        return self.cur.sim

    def raise_(self, e):
        self.cur.raise_(e)


def reseed(s):
    random.seed(s)
    np.random.seed(s)
    algorithm_globals.random_seed = s


def hardest(specs):
    return max(specs, key=lambda s: (len(s.lcons) > 0 or any(v[1] == "i" for v in s.vars), len(s.vars)))


def bad_program(sim):
    """A program most objects refuse."""
    s = gen.Spec()
    s.name = "bad"
    k = sim.draw(3)
    s.vars = [("x", "c", 0, 3), ("y", "b", 0, 1)] if k == 0 else [("x", "b", 0, 1), ("y", "b", 0, 1)] if k == 1 else [("x", "i", 0, 4), ("y", "c", -1, 1)]
    s.lin = {0: 1.0}
    if k == 1:
        s.qcons.append(("q", {0: 1}, {(0, 1): 2}, "<=", 1))
    else:
        s.lcons.append(("l", {0: 1.5, 1: 1}, "<=", 1.25))
    return s


def optimizer_history(sim):
    kind = sim.pick(zoo.ALL)
    specs = [zoo.program(sim, kind) for _ in range(2 + sim.draw(2))]
    c = zoo.case(sim, kind, spec=hardest(specs))
    sim.ev("optimizer", kind, [s.show() for s in specs])
    problems = [s.build(style=sim.draw(3)) for s in specs]
    ref, ref2 = Ref(), Ref()
    box = {}
    hist = []
    kept = []
    with zoo.Foreign(lambda: box.get("ctl")):
        ref.cur = zoo.Ctl(sim)
        opt = c.make(ref)
        for step in range(2 + sim.draw(5)):
            i = sim.draw(len(specs))
            how = sim.weighted([(5, "ok"), (2, "fault"), (2, "interrupt"), (1, "bad")])
            seed = sim.draw(1 << 16)
            if how == "bad":
                try:
                    ref.cur = box["ctl"] = zoo.Ctl(sim)
                    opt.solve(bad_program(sim).build())
                except Exception:
                    sim.fault("refused-program")
                hist.append(("bad",))
                continue
            if how == "fault":
                hit, which = sim.draw(5), sim.draw(64)
                ref.cur = box["ctl"] = zoo.Ctl(sim, lambda k, comp, kinds: kinds[which % len(kinds)] if k == hit else None)
                try:
                    opt.solve(problems[i])
                except Exception:
                    pass
                hist.append((i, "fault", tuple(k for _, _, k in ref.cur.log)))
                continue
            if how == "interrupt":
                at = sim.draw(sim.pick([200, 50, 1000, 4000]))
                exc = sched.SimInterrupt() if sim.chance(0.5) else MemoryError("simulated")
                ref.cur = box["ctl"] = zoo.Ctl(sim)
                where = None
                try:
                    _, where = sched.interrupted(lambda: opt.solve(problems[i]), at, exc)
                except Exception:
                    pass
                if where:
                    sim.fault("interrupt-at-line")
                hist.append((i, "interrupt", where))
                continue

            def go(o, r):
                reseed(seed)
                r.cur = box["ctl"] = zoo.Ctl(sim)
                try:
                    res = o.solve(problems[i])
                    return ("ok", res, zoo.result_view(res))
                except Exception as e:
                    return ("error", type(e).__name__, str(e)[:80])

            mine = go(opt, ref)
            ref2.cur = zoo.Ctl(sim)
            fresh = go(c.make(ref2), ref2)
            hist.append((i, mine[0]))
            if len(hist) > 1:
                sim.probe("nontrivial")
            a, b = (mine[2], fresh[2]) if mine[0] == fresh[0] == "ok" else (mine, fresh)
            if mine[0] == fresh[0] == "ok" and c.degenerate:
                a, b = [a["fval"], a["status"]], [b["fval"], b["status"]]
            elif mine[0] == fresh[0] == "error":
                a, b = mine[1], fresh[1]
            sim.check(a == b, "used-object-differs", lambda: "%s on program %d after %r: %r, fresh: %r" % (kind, i, hist[:-1], a, b))
            if mine[0] == "ok":
                zoo.honest(sim, specs[i], mine[1])
                kept.append((mine[1], mine[2]))
                if c.exact:
                    best, arg = specs[i].brute()
                    if best is None:
                        sim.check(mine[1].status.name != "SUCCESS", "infeasible-solved", "")
                    else:
                        sim.check(mine[1].status.name == "SUCCESS" and close(mine[1].fval, best), "not-optimal",
                                  lambda: "%s after %r: status %s value %r, optimum %r at %r; %r" % (
                                      kind, hist[:-1], mine[1].status.name, mine[1].fval, best, arg[:3], specs[i].show()))
                        sim.probe("optimum-checked")
            elif c.exact and specs[i].brute()[0] is not None and kind != "cplex":
                sim.check(False, "healthy-solve-fails", "%s after %r: %r" % (kind, hist[:-1], mine))
            for res, view in kept:
                sim.check(zoo.result_view(res) == view, "earlier-result-changed", "")
    sim.ev("history", hist)
    sim.state(kind, tuple(hist))


def converter_history(sim):
    from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                                QuadraticProgramToQubo)

    kind = sim.pick(["qubo", "qubo-pen", "int2bin", "ineq", "ineq-auto", "ineq-cont", "pen", "pen-fixed"])
    pv = sim.pick([3.0, 17, 0.5])
    state = {"pen": pv if kind in ("qubo-pen", "pen-fixed") else None}

    def make():
        if kind.startswith("qubo"):
            return QuadraticProgramToQubo(penalty=state["pen"])
        if kind == "int2bin":
            return IntegerToBinary()
        if kind.startswith("ineq"):
            return InequalityToEquality({"ineq": "integer", "ineq-auto": "auto", "ineq-cont": "continuous"}[kind])
        return LinearEqualityToPenalty(state["pen"])

    eq_only = kind.startswith("pen")
    specs = [gen.discrete(sim, max_vars=3, max_bits=7, ineq=not eq_only, halves=True) for _ in range(2 + sim.draw(2))]
    sim.ev("converter", kind, [s.show() for s in specs])
    problems = [s.build(style=sim.draw(3)) for s in specs]
    conv = make()
    kept = []
    hist = []
    valid = False
    for _ in range(2 + sim.draw(6)):
        i = sim.draw(len(specs))
        how = sim.weighted([(6, "ok"), (2, "interrupt"), (2, "bad"), (1, "penalty")])
        if how == "bad":
            try:
                conv.convert(bad_program(sim).build())
            except Exception:
                sim.fault("refused-program")
            hist.append("bad")
            continue
        if how == "interrupt":
            at = sim.draw(sim.pick([100, 30, 400]))
            exc = sched.SimInterrupt() if sim.chance(0.5) else MemoryError("simulated")
            where = None
            try:
                _, where = sched.interrupted(lambda: conv.convert(problems[i]), at, exc)
            except Exception:
                pass
            if where:
                sim.fault("interrupt-at-line")
            hist.append((i, where))
            continue
        if how == "penalty":
            if kind.startswith("qubo") or kind.startswith("pen"):
                state["pen"] = sim.pick([None, 2.0, 11])
                conv.penalty = state["pen"]
                hist.append(("penalty", state["pen"]))
            elif kind.startswith("ineq"):
                conv.mode = conv.mode
            continue
        if hist:
            sim.probe("nontrivial")
        fresh = make()
        a, b = conv.convert(problems[i]), fresh.convert(problems[i])
        sa, sb = gen.snapshot(a), gen.snapshot(b)
        sim.check(sa == sb, "used-converter-differs", lambda: "%s after %r: %r, fresh: %r" % (kind, hist, sa, sb))
        kept.append((a, sa))
        n = len(gen.spec_of(a).vars)
        for _ in range(2):
            x = [float(sim.draw(2)) for _ in range(n)]
            ya, yb = [float(v) for v in conv.interpret(x)], [float(v) for v in fresh.interpret(np.array(x))]
            sim.check(ya == yb, "used-converter-decodes-differently", lambda: "%s after %r: %r, fresh %r" % (kind, hist, ya, yb))
        if kind.startswith(("qubo", "pen")):
            sim.check(conv.penalty == fresh.penalty, "penalty-carried-over", lambda: "%r, fresh %r after %r" % (conv.penalty, fresh.penalty, hist))
        for p, s in kept:
            sim.check(gen.snapshot(p) == s, "earlier-program-changed", lambda: "%s after %r" % (kind, hist))
        hist.append((i, "ok"))
    sim.ev("history", hist)
    sim.state(kind, tuple(hist))


def run(sim):
    if sim.chance(0.3):
        converter_history(sim)
    else:
        optimizer_history(sim)
