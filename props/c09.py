"""C09: a failing component is never reported as a successful solve."""
from sim import gen, oracle, zoo
from sim.core import SimFault

RUNS = {"quick": 2500, "thorough": 60000}
BATCH = 25
CPU_LIMIT = 60
RULE = ("one run = one optimizer configuration and program; a healthy dry run counts the component calls, then 1-4 further solves have "
        "a fault of a drawn kind injected at drawn call indices (single, repeated or in bursts); non-trivial when a fault was "
        "injected; distinct by digest of the full event log")
REAL = ["all optimizers of the package", "converters", "QuadraticProgram", "qiskit Grover circuits", "SLSQP/COBYLA/CPLEX between faults"]
STUB = ["eigensolvers, backend, sub-optimizers, SDP solver (deterministic stand-ins)", "failures of all components"]
STATE_MEASURE = "hash of (optimizer, component, fault kind, call index, outcome)"
ASSUMPTIONS = ["any exception type may leave a solve whose component failed", "programs are of the kind each optimizer documents"]


def chain_has(e, target):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is target:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def run(sim):
    kind = sim.pick(zoo.ALL)
    c = zoo.case(sim, kind)
    spec = c.spec
    sim.ev("case", kind, spec.show())
    problem = spec.build(style=sim.draw(3))
    box = {}
    with zoo.Foreign(lambda: box.get("ctl")):
        # the healthy run: how many calls are there to fail, and is the healthy answer honest
        ctl = box["ctl"] = zoo.Ctl(sim)
        opt = c.make(ctl)
        dry_err = None
        try:
            res = opt.solve(problem)
        except Exception as e:  # an infeasible or unbounded program may be refused
            dry_err = e
            if kind not in ("cplex", "slsqp", "cobyla", "admm", "admm-sim"):
                raise
        else:
            zoo.honest(sim, spec, res, "healthy-")
        total = max(1, ctl.n)
        sim.ev("calls", total, type(dry_err).__name__)
        for _ in range(1 + sim.draw(4)):
            mode = sim.weighted([(5, "single"), (2, "burst"), (2, "every")])
            at = sim.draw(total)
            fixed = sim.draw(64)

            def plan(i, comp, kinds, mode=mode, at=at, fixed=fixed):
                hit = i == at if mode == "single" else at <= i < at + 3 if mode == "burst" else i >= at
                if not hit:
                    return None
                return kinds[fixed % len(kinds)] if mode == "every" else kinds[(fixed + i) % len(kinds)]

            ctl = box["ctl"] = zoo.Ctl(sim, plan)
            opt = c.make(ctl)
            err = res = None
            try:
                res = opt.solve(problem)
            except Exception as e:
                err = e
            if not ctl.log:
                sim.probe("fault-not-reached")
            else:
                sim.probe("nontrivial")
            kinds = [k for _, _, k in ctl.log]
            sim.ev("outcome", kinds, type(err).__name__, None if res is None else res.status.name)
            sim.state(kind, tuple((comp, k) for _, comp, k in ctl.log)[:3], at, type(err).__name__, None if res is None else res.status.name)
            if err is not None:
                if not kinds and dry_err is None and not c.random:
                    raise err
                continue
            zoo.honest(sim, spec, res)
            if ctl.fatal is not None:
                # the component raised: the error must not have been turned into a solution
                sim.check(res.status.name != "SUCCESS", "error-swallowed",
                          lambda: "a component raised %r but the solve returned SUCCESS x=%r; faults %r" % (ctl.fatal, res.x, ctl.log))
                sim.check(res.x is None, "error-replaced-by-values", lambda: "component raised %r, result %r" % (ctl.fatal, res.x))
            if any(k in ("none", "failure-result") for k in kinds) and not kind.startswith("admm"):
                # a component that gave no answer at all cannot have been worked into a success (ADMM may succeed with other iterates)
                sim.check(res.status.name != "SUCCESS", "missing-answer-success", lambda: "faults %r, x=%r" % (ctl.log, res.x))
            if "none" in kinds and kind in ("meo", "gw") and len(kinds) == 1:
                sim.check(res.status.name == "FAILURE" and res.x is None, "missing-answer-not-failure", lambda: "%s" % res.status)
            if any(k in ("solver-error", "cplex-error", "no-solution") for k in kinds):
                sim.check(res.status.name != "SUCCESS", "solver-failure-success", lambda: "%r -> SUCCESS" % (ctl.log,))
