"""Oracles shared by the scenarios.  Reference semantics come from Spec (plain Python)."""
import itertools
import math

from .core import close


def status_name(res):
    return res.status.name


def xs(x):
    return [float(v) for v in x]


def check_result(sim, spec, res, who="", integral=True, tol=1e-6, names=True):
    """x/fval/status/names of a result agree with each other and with the caller's program."""
    n = len(spec.vars)
    st = status_name(res)
    if res.x is None:
        sim.check(st == "FAILURE", who + "no-values-but-not-failure", "status %s with no values" % st)
        return None
    sim.check(len(res.x) == n, who + "wrong-length", lambda: "x=%r for %d variables" % (list(res.x), n))
    x = xs(res.x)
    if names:
        want = [v[0] for v in spec.vars]
        sim.check(list(res.variable_names) == want, who + "wrong-names", lambda: "%r vs %r" % (list(res.variable_names), want))
        sim.check([v.name for v in res.variables] == want, who + "wrong-variables", "")
        d = res.variables_dict
        sim.check(set(d) == set(want) and all(close(d[w], x[i]) for i, w in enumerate(want)), who + "variables-dict",
                  lambda: "%r vs %r" % (d, x))
        sim.check(all(close(res[i], x[i]) and close(res[want[i]], x[i]) for i in range(n)), who + "item-access", "")
    f = spec.f(x)
    sim.check(close(res.fval, f, tol), who + "wrong-objective",
              lambda: "reported fval=%r but objective at x=%r is %r; program %r" % (res.fval, x, f, spec.show()))
    check_status(sim, spec, x, st, who)
    if integral:
        for v, (nm, kind, lb, ub) in zip(x, spec.vars):
            if kind in "bi":
                sim.check(abs(v - round(v)) < 1e-9 and lb <= v <= ub, who + "value-outside-domain",
                          lambda: "%s=%r not in [%r,%r]" % (nm, v, lb, ub))
    return x


def check_status(sim, spec, x, st, who=""):
    loose, tight = spec.feasible(x, 1e-6), spec.feasible(x, -1e-7) or spec.feasible(x, 0.0)
    if loose and not tight:
        return  # within rounding of a boundary: either verdict is fine
    sim.check((st == "SUCCESS") == bool(tight), who + "wrong-status",
              lambda: "status %s at x=%r, which is %s; program %r" % (
                  st, x, "feasible" if tight else "infeasible", spec.show()))


def penalty_sums(spec, x):
    """All values sum(residual^2) the squared-penalty encoding of `spec` can take at decoded point x."""
    sets = []
    for _, lin, sense, rhs in spec.lcons:
        lhs = sum(c * x[i] for i, c in lin.items())
        if sense == "==":
            sets.append({(lhs - rhs) ** 2})
            continue
        lo = sum(min(c * spec.vars[i][2], c * spec.vars[i][3]) for i, c in lin.items())
        hi = sum(max(c * spec.vars[i][2], c * spec.vars[i][3]) for i, c in lin.items())
        if sense == "<=":
            r = math.floor(rhs)
            ub = r - lo
            sets.append({(lhs + s - r) ** 2 for s in range(0, max(0, int(ub)) + 1)})
        else:
            r = math.ceil(rhs)
            ub = hi - r
            sets.append({(lhs - s - r) ** 2 for s in range(0, max(0, int(ub)) + 1)})
    out = {0}
    for s in sets:
        out = {a + b for a, b in itertools.product(out, s)}
    return out


def energy_gap_ok(spec, x, qubo_fval, penalty):
    """The converted objective at an outcome that decodes to x is f(x) plus a possible penalty."""
    gap = spec.sense * (float(qubo_fval) - spec.f(x))
    return any(close(gap, penalty * s, 1e-6) for s in penalty_sums(spec, x))


def merge(pairs):
    out = {}
    for k, p in pairs:
        out[k] = out.get(k, 0.0) + p
    return out


def check_samples(sim, spec, res, who="", order=True, tol=1e-6):
    """Per-sample truthfulness, distinctness, total probability and order."""
    total = 0.0
    seen = {}
    prev = None
    for s in res.samples:
        x = xs(s.x)
        k = tuple(round(v, 9) for v in x)
        sim.check(k not in seen, who + "duplicate-sample", lambda: "sample %r listed twice" % (x,))
        seen[k] = float(s.probability)
        total += float(s.probability)
        sim.check(close(s.fval, spec.f(x), tol), who + "sample-objective",
                  lambda: "sample x=%r fval=%r, objective is %r" % (x, s.fval, spec.f(x)))
        check_status(sim, spec, x, s.status.name, who + "sample-")
        if order:
            cur = (s.status.value, spec.sense * float(s.fval))
            sim.check(prev is None or cur >= (prev[0], prev[1] - 1e-9), who + "sample-order",
                      lambda: "samples out of order: %r after %r" % (cur, prev))
            prev = cur
    sim.check(close(total, 1.0, 1e-4), who + "sample-probability-total", lambda: "probabilities sum to %r" % total)
    return seen
