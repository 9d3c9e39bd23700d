"""Program generator and independent reference semantics (plain Python, no code of the repository)."""
import itertools
import math


class Spec:
    """A quadratic program as plain data, with reference evaluation."""

    def __init__(self):
        self.name = ""
        self.vars = []   # (name, kind, lb, ub), kind in 'b','i','c'
        self.sense = 1   # 1 minimise, -1 maximise
        self.const = 0
        self.lin = {}    # i -> coef
        self.quad = {}   # (i,j), i<=j -> coef
        self.lcons = []  # (name, {i:coef}, '<='|'>='|'==', rhs)
        self.qcons = []  # (name, {i:coef}, {(i,j):coef}, sense, rhs)

    # ---- reference semantics
    def f(self, x):
        v = self.const
        for i, c in self.lin.items():
            v += c * x[i]
        for (i, j), c in self.quad.items():
            v += c * x[i] * x[j]
        return v

    @staticmethod
    def _sat(lhs, sense, rhs, tol):
        if lhs != lhs:
            return False
        if sense == "<=":
            return lhs <= rhs + tol
        if sense == ">=":
            return lhs >= rhs - tol
        return abs(lhs - rhs) <= max(tol, 1e-9 * max(abs(lhs), abs(rhs)))

    def lhs(self, con, x):
        if len(con) == 4:
            return sum(c * x[i] for i, c in con[1].items())
        return sum(c * x[i] for i, c in con[1].items()) + sum(
            c * x[i] * x[j] for (i, j), c in con[2].items())

    def feasible(self, x, tol=0.0):
        for (_, _, lb, ub), v in zip(self.vars, x):
            if not (lb - tol <= v <= ub + tol):
                return False
        for con in self.lcons + self.qcons:
            if not self._sat(self.lhs(con, x), con[-2], con[-1], tol):
                return False
        return True

    def margin(self, x):
        """Distance of the nearest bound/constraint from changing its verdict (0 = exactly on it)."""
        m = math.inf
        for (_, _, lb, ub), v in zip(self.vars, x):
            m = min(m, abs(v - lb), abs(v - ub))
        for con in self.lcons + self.qcons:
            m = min(m, abs(self.lhs(con, x) - con[-1]))
        return m

    def domain(self):
        rs = []
        for _, kind, lb, ub in self.vars:
            assert kind != "c"
            rs.append(range(int(lb), int(ub) + 1))
        return itertools.product(*rs)

    def size(self):
        n = 1
        for _, _, lb, ub in self.vars:
            n *= int(ub) - int(lb) + 1
        return n

    def brute(self):
        """(best value, list of best x) over feasible points, or (None, [])."""
        best, arg = None, []
        for x in self.domain():
            if self.feasible(x):
                v = self.f(x) * self.sense
                if best is None or v < best - 1e-9:
                    best, arg = v, [x]
                elif abs(v - best) <= 1e-9:
                    arg.append(x)
        return (None if best is None else best * self.sense), arg

    # ---- through the public API of the package under test
    def build(self, style=0):
        from qiskit_optimization import QuadraticProgram

        p = QuadraticProgram(self.name)
        for name, kind, lb, ub in self.vars:
            if kind == "b":
                p.binary_var(name=name)
            elif kind == "i":
                p.integer_var(lb, ub, name)
            else:
                p.continuous_var(lb, ub, name)
        nm = [v[0] for v in self.vars]
        n = len(nm)

        def L(d):
            if style == 1:
                return [d.get(i, 0) for i in range(n)]
            if style == 2:
                return {i: c for i, c in d.items()}
            return {nm[i]: c for i, c in d.items()}

        def Q(d):
            if style == 1:
                m = [[0] * n for _ in range(n)]
                for (i, j), c in d.items():
                    m[i][j] = c
                return m
            if style == 2:
                return dict(d)
            return {(nm[i], nm[j]): c for (i, j), c in d.items()}

        (p.minimize if self.sense == 1 else p.maximize)(
            constant=self.const, linear=L(self.lin), quadratic=Q(self.quad))
        for name, lin, s, rhs in self.lcons:
            p.linear_constraint(L(lin), s, rhs, name)
        for name, lin, quad, s, rhs in self.qcons:
            p.quadratic_constraint(L(lin), Q(quad), s, rhs, name)
        return p

    def show(self):
        return {"vars": self.vars, "sense": "min" if self.sense == 1 else "max", "const": self.const,
                "lin": self.lin, "quad": {"%d,%d" % k: v for k, v in self.quad.items()},
                "lcons": self.lcons, "qcons": self.qcons}


NAMES = [["x%d" % i for i in range(12)], ["b", "a", "c10", "c9", "z", "y", "w", "k", "j", "h", "q", "r"],
         ["x_1_0", "x_0_1", "x_0_0", "x_1_1", "x_2", "x_10", "x_3", "u", "v", "t", "s", "m"]]


def coef(sim, lo=-4, hi=4, halves=False):
    c = sim.rint(lo, hi)
    if halves:
        k = sim.draw(12)
        if k in (9, 10):
            return c + 0.5
        if k == 11:
            # small and uneven values: gaps well below the usual ones, but far above rounding errors
            return sim.pick([0.01, -0.03, 0.002, 0.07, -0.4, 1 / 3, -0.0005, 2.75]) * (1 if c >= 0 else -1)
    return c


def discrete(sim, max_vars=4, ints=True, cons=True, max_bits=8, halves=True, fixed_ok=False, min_vars=1,
             neg_bounds=True, ineq=True, sense=None, eq_frac=0.0):
    """A binary/integer program within a budget of encoded bits (variables plus integer slacks)."""
    s = Spec()
    s.name = sim.pick(["p", "", "my problem"])
    names = sim.pick(NAMES)
    n = sim.draw(max_vars - min_vars + 1) + min_vars
    bits = 0

    def nbits(r):
        return int(math.log2(r)) + 1 if r > 0 else 1

    for i in range(n):
        if ints and sim.chance(0.35):
            lb = sim.rint(-3, 2) if neg_bounds else sim.rint(0, 2)
            r = sim.pick([1, 2, 3, 5, 4, 6, 8, 7]) if not (fixed_ok and sim.chance(0.1)) else 0
            if bits + nbits(r) + (n - i - 1) <= max_bits:
                s.vars.append((names[i], "i", lb, lb + r))
                bits += nbits(r)
                continue
        s.vars.append((names[i], "b", 0, 1))
        bits += 1
    s.sense = sim.pick([1, -1]) if sense is None else sense
    s.const = coef(sim, -3, 3, halves)
    for i in range(n):
        if sim.chance(0.7):
            c = coef(sim, halves=halves)
            if c:
                s.lin[i] = c
    for i in range(n):
        for j in range(i, n):
            if sim.chance(0.4):
                c = coef(sim, halves=halves)
                if c:
                    s.quad[(i, j)] = c
    if cons:
        for k in range(sim.weighted([(4, 0), (4, 1), (2, 2)])):
            lin = {}
            for i in range(n):
                if sim.chance(0.6):
                    c = sim.rint(-2, 3)
                    if c:
                        lin[i] = c
            if not lin:
                if eq_frac and sim.chance(0.5):
                    # a row without variables: always true or never
                    s.lcons.append(("empty_%d" % k, {}, "==", sim.pick([0, 0, 1])))
                continue
            lo = sum(min(c * s.vars[i][2], c * s.vars[i][3]) for i, c in lin.items())
            hi = sum(max(c * s.vars[i][2], c * s.vars[i][3]) for i, c in lin.items())
            sense_ = sim.pick(["==", "<=", ">="]) if ineq else "=="
            rhs = lo + sim.draw(hi - lo + 1)
            slack = 0
            if sense_ == "<=":
                slack = rhs - lo
            elif sense_ == ">=":
                slack = hi - rhs
            if slack > 0:
                if bits + nbits(slack) > max_bits:
                    sense_ = "=="
                else:
                    bits += nbits(slack)
            if sense_ != "==" and sim.chance(0.2):
                # non-integer right-hand sides are rounded inwards by the encoding
                rhs = rhs + 0.5 if sense_ == "<=" else rhs - 0.5
            if sense_ == "==" and eq_frac and sim.chance(eq_frac):
                # an equality no assignment satisfies, missed by little
                rhs = rhs + sim.pick([0.25, -0.25, 0.5, 1e-3, -1e-4, 0.05])
            s.lcons.append((sim.pick(["c%d", "con %d", "limit_%d"]) % k, lin, sense_, rhs))
    s.bits = bits
    return s


def continuous(sim, max_vars=3, cons=True):
    s = Spec()
    s.name = "cont"
    names = sim.pick(NAMES)
    n = sim.draw(max_vars) + 1
    inf = 1e20
    for i in range(n):
        kind = sim.draw(4)
        lo, hi = sorted([sim.rint(-5, 5), sim.rint(-5, 5)])
        if lo == hi:
            hi += 2
        if kind == 0:
            s.vars.append((names[i], "c", 0, 10))
        elif kind == 1:
            s.vars.append((names[i], "c", lo, hi))
        elif kind == 2:
            s.vars.append((names[i], "c", -inf, hi))
        else:
            s.vars.append((names[i], "c", lo, inf))
    s.sense = sim.pick([1, -1])
    s.const = coef(sim, -3, 3, True)
    for i in range(n):
        if sim.chance(0.8):
            c = coef(sim, halves=True)
            if c:
                s.lin[i] = c
    for i in range(n):
        for j in range(i, n):
            if sim.chance(0.4):
                c = coef(sim, halves=True)
                if c:
                    s.quad[(i, j)] = c
    if cons:
        for k in range(sim.draw(3)):
            lin = {i: sim.rint(-2, 3) for i in range(n)}
            lin = {i: c for i, c in lin.items() if c}
            if lin:
                s.lcons.append(("c%d" % k, lin, sim.pick(["<=", ">=", "=="]), sim.rint(-6, 8)))
        if sim.chance(0.25):
            s.qcons.append(("q0", {0: 1}, {(0, 0): 1}, "<=", sim.rint(1, 9)))
        if sim.chance(0.15):
            lin = {i: sim.rint(-2, 2) for i in range(n)}
            quad = {(0, 0): sim.pick([0, 1, -1])}
            quad[(sim.draw(n), n - 1)] = sim.pick([1, -1, 2])
            s.qcons.append(("q1", {i: c for i, c in lin.items() if c}, {k: c for k, c in quad.items() if c},
                            sim.pick(["<=", ">=", "=="]), sim.rint(-6, 8)))
    return s


def snapshot(p):
    """Everything a caller can observe of a program, as plain comparable data."""
    def lin(e):
        return tuple(sorted((int(k), float(v)) for k, v in e.to_dict().items()))

    def quad(e):
        return tuple(sorted(((int(i), int(j)), float(v)) for (i, j), v in e.to_dict().items()))

    return (p.name, str(p.status),
            tuple((v.name, str(v.vartype), float(v.lowerbound), float(v.upperbound)) for v in p.variables),
            tuple(sorted(p.variables_index.items())),
            str(p.objective.sense), float(p.objective.constant), lin(p.objective.linear), quad(p.objective.quadratic),
            tuple((c.name, str(c.sense), float(c.rhs), lin(c.linear)) for c in p.linear_constraints),
            tuple(sorted(p.linear_constraints_index.items())),
            tuple((c.name, str(c.sense), float(c.rhs), lin(c.linear), quad(c.quadratic)) for c in p.quadratic_constraints),
            tuple(sorted(p.quadratic_constraints_index.items())))


def spec_of(p):
    """Spec read from a program through its public accessors (reference evaluation of derived programs)."""
    s = Spec()
    s.name = p.name
    for v in p.variables:
        t = v.vartype.name[0].lower()
        s.vars.append((v.name, t, v.lowerbound, v.upperbound))
    s.sense = 1 if p.objective.sense.name == "MINIMIZE" else -1
    s.const = float(p.objective.constant)
    s.lin = {int(i): float(c) for i, c in p.objective.linear.to_dict().items()}
    s.quad = {}
    for (i, j), c in p.objective.quadratic.to_dict().items():
        k = (int(min(i, j)), int(max(i, j)))
        s.quad[k] = s.quad.get(k, 0.0) + float(c)
    m = {"LE": "<=", "GE": ">=", "EQ": "=="}
    for c in p.linear_constraints:
        s.lcons.append((c.name, {int(i): float(v) for i, v in c.linear.to_dict().items()}, m[c.sense.name], float(c.rhs)))
    for c in p.quadratic_constraints:
        q = {}
        for (i, j), v in c.quadratic.to_dict().items():
            k = (int(min(i, j)), int(max(i, j)))
            q[k] = q.get(k, 0.0) + float(v)
        s.qcons.append((c.name, {int(i): float(v) for i, v in c.linear.to_dict().items()}, q, m[c.sense.name], float(c.rhs)))
    return s
