"""C05: ADMM respects its budgets and reports its best iterate."""
import itertools
import math

from qiskit_optimization.algorithms import ADMMOptimizer, ADMMParameters
from qiskit_optimization.converters import IntegerToBinary

from sim import gen, oracle, worlds
from sim.core import close

RUNS = {"quick": 2500, "thorough": 60000}
BATCH = 25
RULE = ("one run = one seeded mixed-binary program and parameter set, solved 1-2 times by ADMM whose sub-solvers' answers and "
        "latencies (virtual clock) are drawn by the simulator; the whole trajectory is compared with an independent executable "
        "ADMM; non-trivial when at least two iterations ran; distinct by digest of the full event log")
REAL = ["ADMMOptimizer", "ADMMState", "IntegerToBinary", "QuadraticProgram"]
STUB = ["QUBO and continuous sub-solvers (answers and duration)", "the clock"]
STATE_MEASURE = "hash of (stop reason, iterations, blocks, rho rule, warm start, index of best iterate, status)"
ASSUMPTIONS = ["time passes only while sub-solvers run"]


def norm(v):
    return math.sqrt(sum(a * a for a in v))


def build(sim):
    s = gen.Spec()
    s.name = sim.pick(["p", "admm"])
    names = sim.pick(gen.NAMES)
    n = 2 + sim.draw(4) if not sim.chance(0.04) else 6 + sim.draw(3)
    kinds = []
    for i in range(n):
        k = sim.weighted([(5, "b"), (4, "c"), (1, "i")])
        if k == "b":
            s.vars.append((names[i], "b", 0, 1))
        elif k == "i":
            lb = sim.rint(-2, 1)
            s.vars.append((names[i], "i", lb, lb + sim.pick([1, 2, 3])))
        else:
            lb = sim.rint(-4, 2)
            s.vars.append((names[i], "c", lb, lb + sim.pick([3, 1, 8])))
        kinds.append(k)
    s.sense = sim.pick([1, -1])
    s.const = sim.rint(-2, 2)
    for i in range(n):
        if sim.chance(0.7):
            c = sim.rint(-4, 4)
            if c:
                s.lin[i] = c
    for i in range(n):
        for j in range(i, n):
            if (kinds[i] == "c") == (kinds[j] == "c") and sim.chance(0.35):
                c = sim.rint(-3, 3)
                if c:
                    s.quad[(i, j)] = c
    for k in range(sim.draw(4)):
        pool = [i for i in range(n) if sim.chance(0.6)]
        if sim.chance(0.4):
            pool = [i for i in pool if kinds[i] != "c"]
        lin = {i: sim.pick([1, -1, 2, -2, 3]) for i in pool}
        if lin:
            s.lcons.append(("k%d" % k, lin, sim.pick(["==", "<=", ">="]), sim.rint(-3, 4)))
    if sim.chance(0.15):
        s.qcons.append(("q0", {0: 1}, {(0, n - 1): 1}, sim.pick(["<=", ">=", "=="]), sim.rint(-1, 3)))
    return s


def same_up_to_constant(sim, f, g, points, cls, msg, tol=1e-6):
    base = None
    for p in points:
        a, b = f(p), g(p)
        d = a - b
        scale = max(1.0, abs(a), abs(b))
        if base is None:
            base = (d, scale)
            continue
        sim.check(abs(d - base[0]) <= tol * max(scale, base[1]), cls, lambda: msg() + " at %r: %r vs %r" % (p, a, b))


def run(sim):
    spec = build(sim)
    sim.ev("program", spec.show())
    problem = spec.build(style=sim.draw(3))
    par = dict(
        rho_initial=sim.pick([10000, 1, 50, 1e9]), factor_c=sim.pick([100000, 10, 900]), beta=sim.pick([1000, 1, 50]),
        maxiter=sim.pick([5, 1, 2, 3, 4, 6, 8, 10]) if not sim.chance(0.03) else 25, tol=sim.pick([1e-4, 1e-4, 1e-6, 0.3]), max_time=sim.pick([math.inf, math.inf, 7.75, 2.75, 0.4]),
        three_block=sim.draw(2) == 0, vary_rho=sim.draw(2), tau_incr=sim.pick([2, 1.5]), tau_decr=sim.pick([2, 3]),
        mu_res=sim.pick([10, 1.2]), mu_merit=sim.pick([1000, 0.5]), warm_start=sim.chance(0.3))
    sim.ev("params", sorted((k, str(v)) for k, v in par.items()))
    # the program ADMM works on: integers in binary form, minimisation
    i2b = IntegerToBinary()
    b = gen.spec_of(i2b.convert(problem))
    sg = b.sense
    fmin = lambda x: sg * b.f(x)
    bi = [i for i, v in enumerate(b.vars) if v[1] == "b"]
    ci = [i for i, v in enumerate(b.vars) if v[1] == "c"]
    if len(bi) > 9:
        sim.probe("too-large")
        return
    names = [v[0] for v in b.vars]
    bineq = [c for c in b.lcons if c[2] == "==" and all(i in bi for i in c[1])]
    must = {names[i] for i in bi if b.lin.get(i) or any(c and i in k for k, c in b.quad.items()) or any(c[1].get(i) for c in bineq)}
    cls = worlds.sim_optimizer_class()
    m = {}          # the model's state
    trace = []

    jumpy = sim.chance(0.25)

    def tick():
        dt = sim.pick([0.5, 0.0, 1.0, 3.0])
        if dt >= 3.0:
            sim.fault("slow-subsolver")
        sim.advance(dt)
        if jumpy and sim.chance(0.3):
            sim.jump(sim.pick([-3.0, 3.0, -3600.0, 1e6]))

    def qubo_answer(p, s, i):
        tick()
        sim.check(m["phase"] == "step1", "step-order", lambda: "QUBO solver called in phase %s" % m["phase"])
        got = [v[0] for v in s.vars]
        sim.check(set(got) <= {names[i] for i in bi} and must <= set(got), "step1-variables", lambda: "%r, need %r" % (got, must))
        sim.check(all(v[1] == "b" for v in s.vars) and not s.lcons and not s.qcons and s.sense == 1, "step1-form", repr(s.show()))
        idx = [names.index(v) for v in got]
        pos = [bi.index(i) for i in idx]

        def ref(z):
            full = [0.0] * len(names)
            for i_, v in zip(idx, z):
                full[i_] = v
            val = fmin(full)
            val += par["factor_c"] / 2 * sum((b.lhs(c, full) - c[3]) ** 2 for c in bineq)
            for k, v in zip(pos, z):
                val += m["rho"] / 2 * v * v - m["rho"] * (m["y"][k] + m["z"][k]) * v + m["lam"][k] * v
            return val

        pts = list(itertools.product((0, 1), repeat=len(idx)))
        same_up_to_constant(sim, s.f, ref, pts, "step1-objective", lambda: "iteration %d, program %r" % (m["it"], spec.show()))
        how = sim.weighted([(3, "exact"), (4, "any"), (2, "z")])
        if how == "exact":
            ans = min(pts, key=lambda z: (s.f(z), z))
        elif how == "z":
            ans = [int(round(min(1, max(0, m["z"][k])))) for k in pos]
        else:
            sim.fault("suboptimal-answer")
            ans = [sim.draw(2) for _ in idx]
        x0 = [0.0] * len(bi)
        for k, v in zip(pos, ans):
            x0[k] = float(v)
        m["x0"] = x0
        m["phase"] = "step2"
        return worlds.make_result(p, ans)

    def cont_answer(p, s, i):
        ph = m["phase"]
        if ph == "warm":
            sim.check([v[0] for v in s.vars] == names and all(v[1] == "c" for v in s.vars), "warm-start-form", repr(s.vars))
            pts = [[sim.rint(-2, 2) for _ in names] for _ in range(3)]
            same_up_to_constant(sim, lambda x: s.f(x) * s.sense, fmin, pts, "warm-start-objective", lambda: "")
            ans = [v[2] + (v[3] - v[2]) * sim.draw(5) / 4 for v in b.vars]
            m["x0"] = [ans[i_] for i_ in bi]
            m["z"] = list(m["x0"])
            m["u"] = [ans[i_] for i_ in ci]
            m["phase"] = "step1" if m["s1"] else "step2"
            return worlds.make_result(p, ans)
        tick()
        if ph == "step1" and not must:
            ph = "step2"        # nothing to do in step 1
        if ph == "step2":
            sim.check([v[0] for v in s.vars] == names and all(v[1] == "c" for v in s.vars), "step2-form", repr(s.vars))
            for i_, v in enumerate(s.vars):
                want = (0, 1) if i_ in bi else (b.vars[i_][2], b.vars[i_][3])
                sim.check((v[2], v[3]) == want, "step2-bounds", lambda: "%r expected %r" % (v, want))
            gone = {c[0] for c in bineq}
            have = {c[0]: c for c in s.lcons}
            for c in b.lcons:
                if c[0] in gone:
                    sim.check(c[0] not in have, "step2-constraints", "binary equality %s kept" % c[0])
                else:
                    sim.check(c[0] in have and have[c[0]][2] == c[2] and close(have[c[0]][3], c[3])
                              and {k: v for k, v in have[c[0]][1].items() if v} == {k: v for k, v in c[1].items() if v},
                              "step2-constraints", lambda: "constraint %r became %r" % (c, have.get(c[0])))
            sim.check(len(s.qcons) == len(b.qcons), "step2-constraints", "")

            def ref2(x):
                full = [0.0 if i_ in bi else x[i_] for i_ in range(len(names))]
                val = fmin(full)
                for k, i_ in enumerate(bi):
                    val += m["rho"] / 2 * x[i_] ** 2 - (m["lam"][k] + m["rho"] * (m["x0"][k] - m["y"][k])) * x[i_]
                return val

            pts = [[0] * len(names), [1] * len(names)] + [[1 if k == j else 0 for k in range(len(names))] for j in range(len(names))] + [
                [sim.rint(-2, 2) for _ in names] for _ in range(3)]
            same_up_to_constant(sim, lambda x: s.f(x) * s.sense, ref2, pts, "step2-objective", lambda: "iteration %d, program %r" % (m["it"], spec.show()))
            how = sim.weighted([(6, "any"), (2, "follow"), (1, "stall")])
            ans = [0.0] * len(names)
            for k, i_ in enumerate(ci):
                lo, hi = b.vars[i_][2], b.vars[i_][3]
                ans[i_] = m["u"][k] if how == "stall" and m["u"] else lo + (hi - lo) * sim.draw(5) / 4
            for k, i_ in enumerate(bi):
                if how == "follow":
                    ans[i_] = min(1.0, max(0.0, m["x0"][k] - m["y"][k]))
                elif how == "stall":
                    ans[i_] = m["z"][k]
                else:
                    ans[i_] = sim.draw(5) / 4
            if how != "follow":
                sim.fault("suboptimal-answer")
            m["zprev"] = m["z"]
            m["u"] = [ans[i_] for i_ in ci]
            m["z"] = [ans[i_] for i_ in bi]
            if par["three_block"] and bi:
                m["phase"] = "step3"
            else:
                finish()
            return worlds.make_result(p, ans)
        sim.check(ph == "step3", "step-order", lambda: "continuous solver called in phase %s" % ph)
        sim.check([v[0] for v in s.vars] == [names[i_] for i_ in bi] and all(v[1] == "c" for v in s.vars) and not s.lcons,
                  "step3-form", repr(s.vars))

        def ref3(y):
            return sum((par["beta"] + m["rho"]) / 2 * v * v - (m["lam"][k] + m["rho"] * (m["x0"][k] - m["z"][k])) * v
                       for k, v in enumerate(y))

        pts = [[0] * len(bi), [1] * len(bi)] + [[sim.rint(-2, 2) for _ in bi] for _ in range(3)]
        same_up_to_constant(sim, lambda x: s.f(x) * s.sense, ref3, pts, "step3-objective", lambda: "iteration %d" % m["it"])
        how = sim.weighted([(5, "any"), (2, "follow")])
        ans = [m["x0"][k] - m["z"][k] if how == "follow" else sim.rint(-3, 3) / 4 for k in range(len(bi))]
        m["y"] = list(ans)
        finish()
        return worlds.make_result(p, ans)

    def finish():
        """One iteration is complete: the documented updates."""
        d = [a - z - y for a, z, y in zip(m["x0"], m["z"], m["y"])]
        m["lam"] = [l + m["rho"] * e for l, e in zip(m["lam"], d)]
        x = [0.0] * len(names)
        for i_, v in zip(bi, m["x0"]):
            x[i_] = v
        for i_, v in zip(ci, m["u"]):
            x[i_] = v
        cost = fmin(x)
        cr = 0.0
        for c in b.lcons + b.qcons:
            e = b.lhs(c, x) - c[-1]
            cr += abs(e) if c[-2] == "==" else max(e if c[-2] == "<=" else -e, 0.0)
        pr = norm(d)
        du = m["rho"] * norm([a - p for a, p in zip(m["z"], m["zprev"])])
        trace.append(dict(cost=cost, cr=cr, pr=pr, du=du, merit=cost + par["mu_merit"] * cr, lam=norm(m["lam"]), x=x,
                          rho=m["rho"], x0=list(m["x0"]), u=list(m["u"]), z=list(m["z"]), end=sim.now))
        if par["vary_rho"] == 0:
            if m["rho"] < 1e10:
                m["rho"] *= 1.1
        elif pr > par["mu_res"] * du:
            m["rho"] *= par["tau_incr"]
        elif du > par["mu_res"] * pr:
            m["rho"] /= par["tau_decr"]
        m["it"] += 1
        m["phase"] = "step1" if m["s1"] else "step2"

    qubo = cls(sim, qubo_answer, "qubo", 60)
    cont = cls(sim, cont_answer, "cont", 60)
    opt = ADMMOptimizer(qubo_optimizer=qubo, continuous_optimizer=cont, params=ADMMParameters(**par))
    for rep in range(1 + (sim.draw(5) == 4)):
        nb = len(bi)
        del trace[:]
        m.clear()
        m.update(rho=par["rho_initial"], x0=[0.0] * nb, z=[0.0] * nb, y=[0.0] * nb, lam=[0.0] * nb, u=[0.0] * len(ci),
                 it=0, s1=bool(must), phase="warm" if par["warm_start"] else ("step1" if must else "step2"), zprev=[0.0] * nb)
        t_start = sim.now
        res = opt.solve(problem)
        sim.ev("result", [float(v) for v in res.x], float(res.fval), res.status.name, len(trace))
        sim.check(m["phase"] in ("step1", "step2"), "incomplete-iteration", m["phase"])
        k = len(trace)
        # the run stopped exactly when a stopping condition first held
        sim.check(k <= par["maxiter"], "iteration-limit", lambda: "%d iterations, limit %d" % (k, par["maxiter"]))
        stop = None
        for i, t in enumerate(trace):
            near_tol = abs(t["pr"] - par["tol"]) <= 1e-9 * max(1, par["tol"])
            hit = (i + 1 >= par["maxiter"] and "maxiter") or (t["pr"] <= par["tol"] and "tol") or (
                t["end"] - t_start >= par["max_time"] and "time")
            if i + 1 < k:
                sim.check(not hit or near_tol, "ran-past-stop", lambda: "iteration %d started although %s was reached: residual %r, elapsed %r, %r" % (
                    i + 2, hit, t["pr"], t["end"] - t_start, par))
            else:
                stop = hit or (near_tol and "tol")
                sim.check(stop, "stopped-early", lambda: "stopped after %d iterations: residual %r tol %r elapsed %r max_time %r maxiter %r" % (
                    k, t["pr"], par["tol"], t["end"] - t_start, par["max_time"], par["maxiter"]))
        # recorded trajectory
        st = res.state

        def series(got, key, cls_):
            sim.check(len(got) == k, cls_ + "-length", lambda: "%d entries after %d iterations" % (len(got), k))
            for i, (g, t) in enumerate(zip(got, trace)):
                sim.check(close(g, t[key], 1e-6), cls_, lambda: "iteration %d: recorded %r, update rule gives %r; params %r" % (i + 1, g, t[key], par))

        series(st.cost_iterates, "cost", "recorded-cost")
        series(st.residuals, "pr", "recorded-residual")
        series(st.dual_residuals, "du", "recorded-dual-residual")
        series(st.cons_r, "cr", "recorded-constraint-residual")
        series(st.merits, "merit", "recorded-merit")
        series(st.lambdas, "lam", "recorded-multiplier")
        for nm in ("x0", "u", "z"):
            got = getattr(st, nm + "_saved")
            sim.check(len(got) == k, "recorded-" + nm, lambda: "%d entries of %s after %d iterations" % (len(got), nm, k))
            for g, t in zip(got, trace):
                sim.check(all(close(a, c) for a, c in zip(g, t[nm])) and len(g) == len(t[nm]), "recorded-" + nm, lambda: "%r vs %r" % (g, t[nm]))
        sim.check(close(st.rho, m["rho"]), "recorded-rho", lambda: "%r, update rule gives %r; params %r" % (st.rho, m["rho"], par))
        # the answer
        x = oracle.check_result(sim, spec, res, integral=False)
        best = min(t["merit"] for t in trace)
        cands = [[float(v) for v in i2b.interpret(t["x"])] for t in trace if t["merit"] <= best + 1e-9 * max(1.0, abs(best))]
        sim.check(any(all(close(a, c) for a, c in zip(x, w)) for w in cands), "not-the-least-merit",
                  lambda: "x=%r, iterates with least merit %r, merits %r" % (x, cands, [t["merit"] for t in trace]))
        if k >= 2:
            sim.probe("nontrivial")
        sim.probe("stop-" + str(stop))
        sim.state(stop, k, par["three_block"], par["vary_rho"], par["warm_start"], [t["merit"] for t in trace].index(best), res.status.name)
