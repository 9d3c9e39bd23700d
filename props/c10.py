"""C10: solving never modifies the caller's program."""
import copy

import numpy as np

from sim import gen, sched, zoo
from sim.core import SimFault

RUNS = {"quick": 1000, "thorough": 40000}
BATCH = 20
CPU_LIMIT = 120
RULE = ("one run = one program and either (a) a solve or helper call interrupted at a drawn source line of the package, or failing by a "
        "component fault, or completing; (b) 2-3 concurrent callers sharing the program under the line-level scheduler; (c) a "
        "history of calls with all earlier results kept; (d) edits of derived programs and of the source in a drawn order; (e) several conversions by one converter object with all outputs kept. The program is compared at every switch point and after every call. "
        "Non-trivial when at least one call ran inside the package; distinct by digest of the event log")
REAL = ["all optimizers, converters and applications", "QuadraticProgram", "docplex/CPLEX", "SLSQP/COBYLA"]
STUB = ["eigensolvers, backend, sub-optimizers, SDP solver (deterministic stand-ins)", "thread scheduling", "interrupts"]
STATE_MEASURE = "hash of (mode, callers, interrupted source line | switch positions (file, line) of the first ten switches)"
ASSUMPTIONS = ["callers share the program but each has its own optimizer or converter",
               "Fortran/native routines are not preempted inside a call"]


def helpers(sim, spec):
    """Calls of the package that take a program (or a result) and must not change it: (name, fn(problem))."""
    from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                                QuadraticProgramToQubo)
    from qiskit_optimization import QuadraticProgram

    def conv(*cs):
        def fn(problem):
            q = problem
            objs = [c() for c in cs]
            for o in objs:
                q = o.convert(q)
            x = [float(v[2]) for v in gen.spec_of(q).vars]
            for o in objs[::-1]:
                x = o.interpret(x)
            return (gen.snapshot(q), [float(v) for v in x])
        return fn

    out = [("qubo", conv(QuadraticProgramToQubo)), ("qubo-penalty", conv(lambda: QuadraticProgramToQubo(penalty=3.5))),
           ("int2bin", conv(IntegerToBinary)), ("ineq2eq", conv(lambda: InequalityToEquality("integer"))),
           ("ineq2eq-auto", conv(InequalityToEquality)),
           ("chain", conv(lambda: InequalityToEquality("integer"), IntegerToBinary, LinearEqualityToPenalty)),
           ("docplex", lambda p: str(p.to_docplex().export_as_lp_string())),
           ("lp-string", lambda p: p.export_as_lp_string()),
           ("pprint", lambda p: p.pprint_as_string()),
           ("repr", lambda p: repr(p)),
           ("compat", lambda p: [c().get_compatibility_msg(p) if hasattr(c(), "get_compatibility_msg") else "" for c in (QuadraticProgramToQubo,)]),
           ("copy", lambda p: gen.snapshot(copy.deepcopy(p)))]
    if all(c[2] == "==" for c in spec.lcons) and spec.lcons:
        out.append(("eq2pen", conv(LinearEqualityToPenalty)))
    x = [float(v[2] + (v[3] - v[2] if abs(v[3]) < 1e6 and abs(v[2]) < 1e6 else 1) * sim.draw(2)) for v in spec.vars]
    out.append(("feasible", lambda p: (p.is_feasible(x), p.get_feasibility_info(np.array(x))[0])))
    out.append(("evaluate", lambda p: (p.objective.evaluate(x), list(p.objective.evaluate_gradient(x)),
                                       [c.evaluate(x) for c in p.linear_constraints])))

    def from_to(p):
        q = QuadraticProgram()
        q.from_docplex(p.to_docplex())
        return gen.snapshot(q)

    out.append(("docplex-roundtrip", from_to))
    if len(spec.vars) > 1:
        a, b = spec.vars[0][0], spec.vars[1][0]
        out.append(("fix", lambda p: gen.snapshot(p.substitute_variables(constants={a: spec.vars[0][3]}))))
        out.append(("replace", lambda p: gen.snapshot(p.substitute_variables(variables={a: (b, 1)}))))
        out.append(("negate", lambda p: gen.snapshot(p.substitute_variables(variables={b: (a, -1)}))))
    if not spec.lcons and all(v[1] == "b" for v in spec.vars):
        def ising(p):
            op, off = p.to_ising()
            q = QuadraticProgram()
            q.from_ising(op, off, linear=sim_linear)
            return (gen.snapshot(q), round(off, 9))
        sim_linear = sim.draw(2) == 0
        if spec.quad or spec.lin:
            out.append(("ising", ising))
    return out


def caller(sim, kind, spec, problem, box, tid=0):
    """(name, callable giving plain comparable data, comparable?)"""
    if kind == "helper":
        name, fn = sim.pick(helpers(sim, spec))
        return "helper:" + name, lambda: fn(problem), True
    c = zoo.case(sim, kind, spec=spec)

    def solve():
        ctl = zoo.Ctl(sim)
        box[tid] = ctl
        res = c.make(ctl).solve(problem)
        box.setdefault("kept", []).append((res, zoo.deep_view(res)))
        zoo.honest(sim, spec, res)
        v = zoo.result_view(res)
        return {"fval": v["fval"], "status": v["status"]} if c.degenerate else v

    return kind, solve, not c.random


COMPAT = {
    "discrete": ["meo", "meo-numpy", "recursive", "recursive-sim", "warmstart", "cplex", "helper", "helper"],
    "grover": ["grover", "meo", "recursive", "warmstart", "cplex", "helper"],
    "mixed": ["admm", "admm-sim", "helper"],
    "continuous": ["slsqp", "cobyla", "helper"],
    "maxcut": ["gw", "meo", "recursive", "helper"],
}
FAMILY = {"discrete": "meo", "grover": "grover", "mixed": "admm", "continuous": "slsqp", "maxcut": "gw"}


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("error", type(e).__name__)


def kept_same(sim, box):
    for res, view in box.get("kept", []):
        sim.check(zoo.deep_view(res) == view, "earlier-result-changed", lambda: "%r is now %r" % (view, zoo.deep_view(res)))


def application(sim):
    """Applications: building programs and reading results, completing or interrupted, change neither inputs nor programs nor results."""
    from props import c16
    from sim import worlds

    m = sim.pick(c16.APPS)(sim)
    arg0 = c16.plain(m.arg) if hasattr(m, "arg") else None
    app = m.make()
    p = app.to_quadratic_program()
    snap = gen.snapshot(p)
    bits = [list(m.objects(sim)) for _ in range(2)]
    results = [worlds.make_result(p, b) for b in bits]
    if sim.chance(0.4):
        # values as a numerical solver delivers them
        results.append(worlds.make_result(p, [b + sim.pick([0.0, 1e-7, -1e-7, 3e-6]) for b in bits[0]]))
        calls0 = [("read-float", lambda: repr(app.interpret(results[2])))]
    else:
        calls0 = []
    views = [zoo.deep_view(r) for r in results]
    sim.ev("application", m.name, m.n)

    def unchanged(what):
        sim.check(gen.snapshot(p) == snap, "program-changed", lambda: "%s: %s" % (m.name, what))
        for r, v in zip(results, views):
            sim.check(zoo.deep_view(r) == v, "earlier-result-changed", lambda: "%s: %s: %r is now %r" % (m.name, what, v, zoo.deep_view(r)))
        if arg0 is not None:
            sim.check(c16.plain(m.arg) == arg0, "input-changed", lambda: "%s: %s: %r is now %r" % (m.name, what, arg0, c16.plain(m.arg)))

    calls = [("build", lambda: gen.snapshot(app.to_quadratic_program())), ("read", lambda: repr(app.interpret(results[0]))),
             ("read-array", lambda: repr(app.interpret(results[1].x)))] + calls0
    for _ in range(2 + sim.draw(3)):
        nm, fn = sim.pick(calls)
        solo, lines = sched.count_lines(lambda: outcome(fn))
        unchanged(nm)
        if lines:
            sim.probe("nontrivial")
        at = sim.draw(max(1, lines))
        sim.fault("interrupt-at-line")
        where = None
        try:
            _, where = sched.interrupted(lambda: fn(), at, sched.SimInterrupt() if sim.chance(0.5) else MemoryError("simulated"))
        except Exception:
            sim.probe("interrupt-wrapped")
        sim.ev("interrupted", nm, at, where)
        sim.state("application", m.name, nm, where)
        unchanged("interrupted " + nm)
        sim.check(outcome(fn) == solo, "answer-after-interrupt-differs", lambda: "%s %s" % (m.name, nm))


def derived(sim, spec, fam):
    """Programs the package derived from the caller's program: (name, fn(problem) -> program)."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                                QuadraticProgramToQubo)

    def loaded(p):
        q = QuadraticProgram()
        q.from_docplex(p.to_docplex())
        return q

    out = [("int2bin", lambda p: IntegerToBinary().convert(p)), ("ineq2eq", lambda p: InequalityToEquality("auto").convert(p)),
           ("ineq2eq-continuous", lambda p: InequalityToEquality("continuous").convert(p)),
           ("qubo", lambda p: QuadraticProgramToQubo().convert(p)), ("penalty", lambda p: LinearEqualityToPenalty().convert(p)),
           ("penalty-fixed", lambda p: LinearEqualityToPenalty(penalty=2.0).convert(p)),
           ("chain", lambda p: IntegerToBinary().convert(InequalityToEquality("integer").convert(p))),
           ("copy", lambda p: copy.deepcopy(p)), ("loaded", loaded), ("substitute-nothing", lambda p: p.substitute_variables())]
    if len(spec.vars) > 1:
        nm = spec.vars[0][0]
        out.append(("substitute", lambda p: p.substitute_variables(constants={nm: max(spec.vars[0][2], min(spec.vars[0][3], 1))})))
    return out


def edit(sim, q, n):
    """n building operations on q; whether each is accepted does not matter here."""
    from props import c13

    done = []
    for _ in range(n):
        m = c13.Model()
        c13.adopt(m, q)
        k = sim.draw(8)
        if k == 0 and q.get_num_vars():
            v = q.variables[sim.draw(q.get_num_vars())]
            side, val = sim.pick([("lowerbound", -7), ("upperbound", 9), ("lowerbound", 1), ("upperbound", 0)])
            op, call = ("bound", v.name, side, val), lambda p: setattr(v, side, val)
        elif k == 1 and q.get_num_linear_constraints():
            c = q.linear_constraints[sim.draw(q.get_num_linear_constraints())]
            op, call = ("row", c.name), lambda p: (setattr(c, "rhs", 17), c.linear.__setitem__(0, 3.25))
        elif k == 2:
            op, call = ("objective",), lambda p: (p.objective.linear.__setitem__(0, 8.5), p.objective.quadratic.__setitem__((0, 0), -2.25),
                                                  setattr(p.objective, "constant", 31))
        elif k == 3:
            op, call = ("name",), lambda p: setattr(p, "name", "edited")
        else:
            op, call, _ = sim.weighted([(3, c13.op_var), (1, c13.op_batch), (3, c13.op_objective), (3, c13.op_lcon), (3, c13.op_qcon),
                                        (3, c13.op_remove), (3, c13.op_edit), (1, c13.op_clear)])(sim, m)
        try:
            call(q)
        except Exception:
            pass
        done.append(op)
    return done


def aliasing(sim, spec, problem, fam):
    """The caller's program and the programs derived from it are independent: editing one changes none of the others."""
    before = gen.snapshot(problem)
    group = [("source", problem)]
    for _ in range(1 + sim.draw(3)):
        nm, fn = sim.pick(derived(sim, spec, fam))
        src = sim.pick(group)[1]
        try:
            q = fn(src)
        except Exception as e:
            sim.ev("refused", nm, type(e).__name__)
            continue
        group.append((nm, q))
        sim.probe("nontrivial")
    sim.check(gen.snapshot(problem) == before, "program-changed", lambda: "by %r" % [g[0] for g in group])
    for _ in range(2 + sim.draw(3)):
        i = sim.draw(len(group))
        snaps = [gen.snapshot(q) for _, q in group]
        done = edit(sim, group[i][1], 1 + sim.draw(3))
        sim.ev("edited", group[i][0], done)
        for k, (nm, q) in enumerate(group):
            if k != i and q is not group[i][1]:
                sim.check(gen.snapshot(q) == snaps[k], "shared-state",
                          lambda: "editing %s (%r) changed %s: %s" % (group[i][0], done, nm, "; ".join(
                              "%r -> %r" % (a, b) for a, b in zip(snaps[k], gen.snapshot(q)) if a != b)))
            elif k != i:
                sim.check(False, "shared-state", lambda: "%s and %s are one object" % (group[i][0], nm))
    sim.state("aliasing", tuple(sorted(g[0] for g in group)))


def reused(sim, spec, problem, fam):
    """One converter object converting several programs: what it returned earlier stays as it was."""
    from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                                QuadraticProgramToQubo)

    nm, mk = sim.pick([("qubo", QuadraticProgramToQubo), ("qubo-fixed", lambda: QuadraticProgramToQubo(penalty=4.0)),
                       ("int2bin", IntegerToBinary), ("ineq2eq", lambda: InequalityToEquality("integer")),
                       ("ineq2eq-auto", InequalityToEquality), ("penalty", LinearEqualityToPenalty),
                       ("penalty-fixed", lambda: LinearEqualityToPenalty(penalty=2.0))])
    conv = mk()
    progs = [(spec, problem)]
    for _ in range(1 + sim.draw(2)):
        t = gen.discrete(sim, max_vars=4, max_bits=8, ineq=not nm.startswith("penalty"))
        progs.append((t, t.build(style=sim.draw(3))))
    srcs = [gen.snapshot(p) for _, p in progs]
    outs = []

    def check(what):
        for (_, p), was in zip(progs, srcs):
            sim.check(gen.snapshot(p) == was, "program-changed", lambda: "%s: %s" % (nm, what))
        for k, (q, was) in enumerate(outs):
            sim.check(gen.snapshot(q) == was, "earlier-program-changed", lambda: "%s: output %d changed by %s" % (nm, k, what))
            for j, (r, _) in enumerate(outs[:k]):
                sim.check(q is not r, "earlier-program-changed", lambda: "%s: outputs %d and %d are one object" % (nm, j, k))

    for _ in range(2 + sim.draw(3)):
        t, p = sim.pick(progs)
        cut = sim.chance(0.25)
        box = []

        def go():
            q = conv.convert(p)
            box.append(q)
            return gen.snapshot(q)

        fresh = outcome(lambda: gen.snapshot(mk().convert(p)))
        if cut:
            _, lines = sched.count_lines(lambda: outcome(lambda: mk().convert(p)))
            sim.fault("interrupt-at-line")
            try:
                sched.interrupted(go, sim.draw(max(1, lines)), sched.SimInterrupt())
            except Exception:
                sim.probe("interrupt-wrapped")
            sim.ev("interrupted", nm)
            check("an interrupted conversion")
            box.clear()
        got = outcome(go)
        sim.ev("converted", nm, got[0])
        sim.check(got == fresh, "converter-remembers", lambda: "%s: %r, a fresh converter gives %r" % (nm, got, fresh))
        if box:
            outs.append((box[0], got[1]))
            sim.probe("nontrivial")
            if sim.chance(0.4):
                x = np.array([float(v.lowerbound) for v in box[0].variables])
                conv.interpret(x)
        check("a later conversion")
    sim.state("reused", nm, len(outs))


def same_optimizer(sim, fam, box, problem, same, diff, spec):
    """One optimizer solving several programs: what it returned earlier, and the programs, stay as they were."""
    kind = sim.pick([k for k in COMPAT[fam] if k != "helper"])
    c = zoo.case(sim, kind, spec=spec)
    ctl = box[0] = zoo.Ctl(sim)
    opt = c.make(ctl)
    progs = [problem]
    for _ in range(1 + sim.draw(2)):
        progs.append(zoo.program(sim, FAMILY[fam]).build(style=sim.draw(3)))
    snaps = [gen.snapshot(p) for p in progs]
    for i in range(2 + sim.draw(3)):
        p = progs[0] if i == 0 else sim.pick(progs)
        hit = ctl.n + sim.draw(4) if sim.chance(0.3) else None
        ctl.plan = lambda j, comp, kinds: kinds[0] if j == hit else None
        try:
            res = opt.solve(p)
            box.setdefault("kept", []).append((res, zoo.deep_view(res)))
            sim.probe("nontrivial")
        except Exception as e:
            sim.probe("failed-call")
            sim.ev("raised", type(e).__name__)
        sim.ev("solved", kind, progs.index(p))
        sim.check(all(gen.snapshot(q) == w for q, w in zip(progs, snaps)), "program-changed", lambda: "by %s: %s" % (kind, diff()))
        kept_same(sim, box)
    kept = [r for r, _ in box.get("kept", [])]
    sim.check(len(set(map(id, kept))) == len(kept), "earlier-result-changed", "two solves returned one result object")
    sim.state("same-optimizer", kind, len(kept))


def run(sim):
    fam = sim.weighted([(4, "discrete"), (2, "grover"), (2, "mixed"), (2, "continuous"), (2, "maxcut"), (1, "application")])
    if fam == "application":
        return application(sim)
    spec = zoo.program(sim, FAMILY[fam])
    problem = spec.build(style=sim.draw(3))
    before = gen.snapshot(problem)
    sim.ev("program", fam, spec.show())
    mode = sim.weighted([(4, "interrupt"), (4, "concurrent"), (2, "history"), (2, "aliasing"), (2, "reused")])
    if mode == "aliasing":
        return aliasing(sim, spec, problem, fam)
    if mode == "reused":
        return reused(sim, spec, problem, fam)
    same = lambda: gen.snapshot(problem) == before
    box = {}

    def diff():
        now = gen.snapshot(problem)
        return "; ".join("%r -> %r" % (a, b) for a, b in zip(before, now) if a != b)

    if mode == "concurrent":
        import threading
        n = 2 + (sim.draw(3) == 2)
        tids = {}
        cur = lambda: box.get(tids.get(threading.get_ident()))
        calls = [caller(sim, sim.pick(COMPAT[fam]), spec, problem, box, tid=i) for i in range(n)]
        sim.ev("concurrent", [c[0] for c in calls])
        # what each gets alone
        with zoo.Foreign(lambda: None):
            alone = [outcome(c[1]) for c in calls]
        sim.check(same(), "program-changed", lambda: "by %r: %s" % ([c[0] for c in calls], diff()))
        s = sched.Sched(sim, on_switch=None, shared=problem, weight=sim.pick([1, 30, 300]))
        bad = []

        def at_switch():
            if not bad and not same():
                bad.append(diff())

        s.on_switch = at_switch

        def body(i):
            def fn():
                tids[threading.get_ident()] = i
                return calls[i][1]()
            return fn

        with zoo.Foreign(cur, atomic=s.atomic):
            results, errors = s.run([body(i) for i in range(n)])
        sim.ev("switches", s.switches, s.path[:10])
        sim.state("concurrent", tuple(c[0] for c in calls), tuple(s.path[:10]))
        sim.probe("nontrivial")
        sim.probe("switches", s.switches)
        sim.check(not bad, "program-changed-during", lambda: "while %r ran: %s" % ([c[0] for c in calls], bad[0]))
        sim.check(same(), "program-changed", lambda: "by %r: %s" % ([c[0] for c in calls], diff()))
        for i, (nm, _, comparable) in enumerate(calls):
            e = errors[i]
            if e is not None and not isinstance(e, Exception):
                raise e
            if e is not None and type(e).__name__ == "Violation":
                raise e
            got = ("error", type(e).__name__) if e is not None else ("ok", results[i])
            if comparable:
                sim.check(got == alone[i], "concurrent-answer-differs",
                          lambda: "%s alone: %r, concurrently with %r: %r" % (nm, alone[i], [c[0] for c in calls], got))
        kept_same(sim, box)
        return

    with zoo.Foreign(lambda: box.get(0)):
        if mode == "interrupt":
            nm, fn, comparable = caller(sim, sim.pick(COMPAT[fam]), spec, problem, box)
            try:
                solo, lines = sched.count_lines(lambda: outcome(fn))
            finally:
                pass
            sim.check(same(), "program-changed", lambda: "by %s: %s" % (nm, diff()))
            if lines:
                sim.probe("nontrivial")
            for _ in range(1 + sim.draw(4)):
                at = sim.draw(max(1, lines))
                exc = sched.SimInterrupt() if sim.chance(0.5) else MemoryError("simulated")
                sim.fault("interrupt-at-line")
                where = None
                try:
                    _, where = sched.interrupted(lambda: fn(), at, exc)
                except Exception as e:  # wrapped or replaced by the code under test
                    sim.probe("interrupt-wrapped")
                sim.ev("interrupted", nm, at, where)
                sim.state("interrupt", nm, where)
                sim.check(same(), "program-changed-by-interrupted-call", lambda: "%s interrupted at %s: %s" % (nm, where, diff()))
            again = outcome(fn)
            if comparable:
                sim.check(again == solo, "answer-after-interrupt-differs", lambda: "%s: %r then %r" % (nm, solo, again))
            kept_same(sim, box)
            return
        # history: faults and several callers one after another, all earlier results kept
        if sim.chance(0.5):
            # one optimizer for several programs
            return same_optimizer(sim, fam, box, problem, same, diff, spec)
        for _ in range(2 + sim.draw(3)):
            kind = sim.pick(COMPAT[fam])
            if kind == "helper":
                nm, fn, _ = caller(sim, kind, spec, problem, box)
                outcome(fn)
            else:
                nm = kind
                c = zoo.case(sim, kind, spec=spec)
                hit, which = (sim.draw(6), sim.draw(64)) if sim.chance(0.5) else (None, 0)
                ctl = box[0] = zoo.Ctl(sim, lambda i, comp, kinds: kinds[which % len(kinds)] if i == hit else None)
                try:
                    res = c.make(ctl).solve(problem)
                    box.setdefault("kept", []).append((res, zoo.deep_view(res)))
                except Exception:
                    sim.probe("failed-call")
            sim.ev("call", nm)
            sim.probe("nontrivial")
            sim.check(same(), "program-changed", lambda: "by %s: %s" % (nm, diff()))
            kept_same(sim, box)
        sim.state("history", fam, len(box.get("kept", [])))
