"""C13: building a program is atomic and its indices stay consistent."""
import collections.abc
import copy
import itertools
import math

import numpy as np
import scipy.sparse as sp

from sim import gen
from sim.core import SimFault, close

RUNS = {"quick": 9000, "thorough": 300000}
BATCH = 50
RULE = ("one run = a history of 4-30 building operations, valid, invalid or fed by failing arguments, interleaved over two programs, "
        "each compared after every operation with a plain reference model (valid operation), or with its state before the call "
        "(operation that raised). Non-trivial when at least one operation was rejected and a valid one followed; distinct by digest")
REAL = ["QuadraticProgram, variables, expressions, constraints, substitution", "docplex models", "qiskit opflow operators"]
STUB = ["callers' arguments (sequences, mappings and key objects that fail while being read)"]
STATE_MEASURE = "hash of (number of variables by type, constraints, last three operations with their outcome)"
ASSUMPTIONS = ["the name given to an unnamed variable or constraint is chosen by the package; only its uniqueness and prefix are checked"]

INF = 1e20
SENSES = {"<=": ["<=", "<", "L", "LE", "le"], ">=": [">=", ">", "G", "GE", "ge"], "==": ["==", "=", "E", "EQ", "eq"]}


class Bad(Exception):
    pass


class BadSeq(collections.abc.Sequence):
    """A sequence that fails while being read."""

    def __init__(self, items, at):
        self.items, self.at = items, at

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, int) and i >= self.at:
            if i >= len(self.items):
                raise IndexError(i)
            raise SimFault("reading the keys failed")
        return self.items[i]


class BadKey:
    def __str__(self):
        raise SimFault("formatting the key failed")

    __repr__ = object.__repr__
    __format__ = lambda self, spec: str(self)


class BadDict(dict):
    """A mapping whose iteration fails half-way."""

    def items(self):
        for k, (a, b) in enumerate(super().items()):
            if k == len(self) - 1:
                raise SimFault("reading the coefficients failed")
            yield a, b


class Model:
    """Reference: what the program should contain."""

    def __init__(self):
        self.name = ""
        self.clear()

    def clear(self):
        self.vars = []      # [name, kind, lb, ub]
        self.obj = [1, 0.0, {}, {}]
        self.sizes = {}     # number of variables when an expression was last set as a whole
        self.lcons = []     # [name, {i: c}, sense, rhs]
        self.qcons = []     # [name, {i: c}, {(i,j): c}, sense, rhs]

    def names(self):
        return [v[0] for v in self.vars]


def canon(d):
    out = {}
    for (i, j), c in d.items():
        k = (min(i, j), max(i, j))
        out[k] = out.get(k, 0.0) + c
    return {k: c for k, c in out.items() if c}


def view(p):
    """Everything readable, through every accessor; raises if positions and names disagree."""
    kinds = {"CONTINUOUS": "c", "BINARY": "b", "INTEGER": "i"}
    nums = p.get_num_vars()
    vs = [(v.name, kinds[v.vartype.name], float(v.lowerbound), float(v.upperbound)) for v in p.variables]
    m = {"LE": "<=", "GE": ">=", "EQ": "=="}
    lin = lambda e: tuple(sorted((int(i), float(c)) for i, c in e.to_dict().items() if c))
    quad = lambda e: tuple(sorted(canon({(int(i), int(j)): float(c) for (i, j), c in e.to_dict().items()}).items()))
    lc = [(c.name, lin(c.linear), m[c.sense.name], float(c.rhs)) for c in p.linear_constraints]
    qc = [(c.name, lin(c.linear), quad(c.quadratic), m[c.sense.name], float(c.rhs)) for c in p.quadratic_constraints]
    o = p.objective
    return (tuple(vs), (o.sense.value, float(o.constant), lin(o.linear), quad(o.quadratic)), tuple(lc), tuple(qc))


def model_view(m):
    lin = lambda d: tuple(sorted((i, float(c)) for i, c in d.items() if c))
    quad = lambda d: tuple(sorted((k, float(c)) for k, c in canon(d).items()))
    return (tuple((n, k, float(a), float(b)) for n, k, a, b in m.vars),
            (m.obj[0], float(m.obj[1]), lin(m.obj[2]), quad(m.obj[3])),
            tuple((n, lin(l), s, float(r)) for n, l, s, r in m.lcons),
            tuple((n, lin(l), quad(q), s, float(r)) for n, l, q, s, r in m.qcons))


def same_view(a, b):
    if a == b:
        return True
    # tolerate rounding in the numbers only
    def flat(t):
        if isinstance(t, tuple):
            for x in t:
                yield from flat(x)
        else:
            yield t
    fa, fb = list(flat(a)), list(flat(b))
    return len(fa) == len(fb) and all(x == y or (isinstance(x, float) and isinstance(y, float) and close(x, y, 1e-12)) for x, y in zip(fa, fb))


def snap(sim, p, op):
    """The observable content; a program that cannot be read any more is a violation, not a harness error."""
    try:
        return gen.snapshot(p)
    except Exception as e:
        sim.check(False, "unreadable-program", "after %r reading the program raises %r" % (op, e))


def consistent(sim, p, op):
    """Every element is reachable by position and by name, and the counts are right."""
    def chk(cond, what):
        sim.check(cond, "inconsistent-index", lambda: "after %r: %s" % (op, what))

    n = p.get_num_vars()
    chk(n == len(p.variables), "number of variables")
    names = [v.name for v in p.variables]
    chk(len(set(names)) == n, "variable names %r are not unique" % names)
    chk(dict(p.variables_index) == {nm: i for i, nm in enumerate(names)}, "variables_index %r for %r" % (p.variables_index, names))
    for i, nm in enumerate(names):
        chk(p.get_variable(nm) is p.variables[i] and p.get_variable(i) is p.variables[i], "variable %d/%s" % (i, nm))
    by = {"b": 0, "i": 0, "c": 0}
    for v in p.variables:
        by[v.vartype.name[0].lower()] += 1
        chk(v.lowerbound <= v.upperbound, "bounds of %s" % v.name)
        chk(v.quadratic_program is p, "variable %s belongs to another program" % v.name)
    chk((p.get_num_binary_vars(), p.get_num_integer_vars(), p.get_num_continuous_vars()) == (by["b"], by["i"], by["c"]), "counts per type")
    for cons, index, get, num in ((p.linear_constraints, p.linear_constraints_index, p.get_linear_constraint, p.get_num_linear_constraints()),
                                  (p.quadratic_constraints, p.quadratic_constraints_index, p.get_quadratic_constraint,
                                   p.get_num_quadratic_constraints())):
        cn = [c.name for c in cons]
        chk(num == len(cn) and len(set(cn)) == len(cn), "constraint names %r" % cn)
        chk(dict(index) == {nm: i for i, nm in enumerate(cn)}, "constraint index %r for %r" % (index, cn))
        for i, nm in enumerate(cn):
            chk(get(nm) is cons[i] and get(i) is cons[i], "constraint %s" % nm)
            chk(cons[i].quadratic_program is p, "constraint %s belongs to another program" % nm)
    chk(p.objective.quadratic_program is p, "the objective belongs to another program")


# ---- drawing arguments ----------------------------------------------------------------------------------------------------
def num(sim):
    return sim.pick([1, 2, -1, 0.5, -3, 0, 7.25])


def lin_arg(sim, m):
    """(argument, {i: c} | None when invalid, description)"""
    n = len(m.vars)
    d = {i: c for i in range(n) if sim.chance(0.5) for c in [num(sim)]}
    how = sim.weighted([(3, "names"), (2, "index"), (2, "list"), (2, "array"), (2, "sparse"), (1, "none"), (1, "mixed"), (1, "intarray"), (3, "bad")])
    nm = m.names()
    if n == 0 and how in ("list", "array", "sparse", "intarray"):
        how = "names"
    if how == "names":
        return {nm[i]: c for i, c in d.items()}, d, how
    if how == "index":
        return dict(d), d, how
    if how == "mixed":
        return {(nm[i] if i % 2 else i): c for i, c in d.items()}, d, how
    if how == "list":
        return [d.get(i, 0) for i in range(n)], d, how
    if how == "array":
        return np.array([d.get(i, 0) for i in range(n)], dtype=float), d, how
    if how == "intarray":
        d = {i: int(c) for i, c in d.items()}
        return np.array([d.get(i, 0) for i in range(n)]), d, how
    if how == "sparse":
        return sp.csr_matrix([[float(d.get(i, 0)) for i in range(n)]]), d, how
    if how == "none":
        return None, {}, how
    k = sim.draw(5)
    if k == 0:
        return {"no such variable": 1.0, **{nm[i]: c for i, c in d.items()}}, None, "bad-name"
    if k == 1:
        return {n + 3: 1.0}, None, "bad-index"
    if k == 2:
        return 3.5, None, "bad-type"
    if k == 3 and n:
        sim.fault("argument-fails-while-read")
        return BadDict({nm[i]: 1.0 for i in range(n)}), None, "failing-mapping"
    return {(nm[0] if n else "q"): "not a number"}, None, "bad-value"


def quad_arg(sim, m):
    n = len(m.vars)
    d = {}
    for i in range(n):
        for j in range(n):
            if sim.chance(0.25):
                d[(i, j)] = num(sim)
    how = sim.weighted([(3, "names"), (2, "index"), (2, "list"), (2, "array"), (2, "sparse"), (2, "none"), (2, "bad")])
    nm = m.names()
    if n == 0 and how in ("list", "array", "sparse"):
        how = "names"
    mat = [[float(d.get((i, j), 0)) for j in range(n)] for i in range(n)]
    if how == "names":
        return {(nm[i], nm[j]): c for (i, j), c in d.items()}, d, how
    if how == "index":
        return dict(d), d, how
    if how == "list":
        return mat, d, how
    if how == "array":
        return np.array(mat), d, how
    if how == "sparse":
        return sp.coo_matrix(np.array(mat)), d, how
    if how == "none":
        return None, {}, how
    k = sim.draw(4)
    if k == 0:
        return {("no such variable", nm[0] if n else "y"): 1.0}, None, "bad-name"
    if k == 1:
        return {(n + 2, 0): 1.0}, None, "bad-index"
    if k == 2:
        return "nonsense", None, "bad-type"
    if n:
        sim.fault("argument-fails-while-read")
        return BadDict({(nm[i], nm[0]): 1.0 for i in range(n)}), None, "failing-mapping"
    return {("y", "y"): 1.0}, None, "bad-name"


def bounds(sim):
    lo, hi = sim.pick([(0, 5), (-3, 4), (0, INF), (-INF, 2), (1, 1), (4, 2), (-1.5, 0.5)])
    return lo, hi, lo <= hi


# ---- operations: each returns (description, callable(program), effect(model, returned) | None if it must be rejected) -------
def op_var(sim, m):
    kind = sim.pick(["b", "i", "c"])
    name = sim.pick([None, "x", "y", "x1", "x2", "x_0", "u v", "x3", "c0", "x%d" % (len(m.vars) + 1), "x%d" % (len(m.vars) + 2)] + m.names()[:2])
    lo, hi, ok = bounds(sim) if kind != "b" else (0, 1, True)
    meth = {"b": "binary_var", "i": "integer_var", "c": "continuous_var"}[kind]
    call = lambda p: getattr(p, meth)(name=name) if kind == "b" else getattr(p, meth)(lo, hi, name)
    ok = ok and (name is None or name not in m.names())

    def effect(mm, ret):
        if name is not None and ret.name != name:
            raise Bad("variable %r was added under the name %r" % (name, ret.name))
        if ret.name in mm.names():
            raise Bad("name %r given twice" % ret.name)
        mm.vars.append([ret.name, kind, lo, hi])

    return (meth, name, lo, hi), call, effect if ok else None


def op_batch(sim, m):
    kind = sim.pick(["b", "i", "c"])
    form = sim.pick(["dict", "list"])
    name = sim.pick([None, "x", "y", "z_"])
    fmt = sim.pick(["{}", "_{}", "{}", "", "k{}m", "{}{}", "{{}}", "{:03d}"])
    lo, hi, ok = bounds(sim) if kind != "b" else (0, 1, True)
    base = "x" if name is None else name
    expect = None      # exact names for sequence keys
    count = 0
    how = sim.weighted([(5, "count"), (5, "keys"), (1, "zero"), (2, "failing"), (1, "badkey")])
    if how == "count":
        count = keys = sim.draw(4) + 1 if not sim.chance(0.1) else 11
        if "{" not in fmt and (count > 1 or base + fmt in m.names()):
            ok = False
    elif how == "zero":
        keys = -sim.draw(3)
        ok = False
    elif how == "failing":
        keys = BadSeq(["p", "q", "r", "s"], sim.draw(4))
        sim.fault("argument-fails-while-read")
        ok = False
    elif how == "badkey":
        keys = ["p", BadKey()]
        sim.fault("argument-fails-while-read")
        ok = False
    else:
        keys = sim.pick([["a", "b"], [0, 1, 2], ["r", "s", "r"], [], ("t", 5), [10], [m.names()[0][1:] if m.vars and len(m.vars[0][0]) > 1 else "e", "f"]])
        try:
            expect = [base + fmt.format(k) for k in keys]
        except Exception:
            ok = False
        if expect is not None and (len(set(expect)) < len(expect) or set(expect) & set(m.names())):
            ok = False
    if fmt.count("{}") > 1 or "{{}}" in fmt:
        ok = False
    if how == "badkey" and fmt == "":
        ok = None   # the key is never formatted, so it may or may not be accepted
    meth = {"b": "binary_var_", "i": "integer_var_", "c": "continuous_var_"}[kind] + form

    def call(p):
        if kind == "b":
            return getattr(p, meth)(keys, name=name, key_format=fmt)
        return getattr(p, meth)(keys, lo, hi, name, fmt)

    def effect(mm, ret):
        items = list(ret.items()) if form == "dict" else [(v.name, v) for v in ret]
        for k, v in items:
            if k != v.name:
                raise Bad("variable %r returned under key %r" % (v.name, k))
        got = [k for k, _ in items]
        if expect is not None and got != expect:
            raise Bad("expected the names %r, got %r" % (expect, got))
        if expect is None and (len(got) != count or any(not g.startswith(base) for g in got)):
            raise Bad("asked for %d variables named %s.., got %r" % (count, base, got))
        for g in got:
            if g in mm.names():
                raise Bad("name %r given twice" % g)
            mm.vars.append([g, kind, lo, hi])

    return (meth, how, name, fmt, lo, hi), call, effect if ok else (None if ok is False else "either")


def op_objective(sim, m):
    meth = sim.pick(["minimize", "maximize"])
    const = num(sim)
    la, ld, lh = lin_arg(sim, m)
    qa, qd, qh = quad_arg(sim, m)
    call = lambda p: getattr(p, meth)(const, la, qa)

    def effect(mm, ret):
        mm.obj = [1 if meth == "minimize" else -1, const, ld, qd]

    return (meth, lh, qh), call, effect if ld is not None and qd is not None else None


def con_name(sim, have, prefix):
    # often names of the kind the package chooses itself, shortly before it would choose them
    k = len(have)
    if sim.draw(3) == 0:
        return sim.pick([None, "%s%d" % (prefix, k + 2), "%s%d" % (prefix, k + 1), "%s%d" % (prefix, k)])
    return sim.pick([None, "", "c0", "c1", "q0", "my row", "%s%d" % (prefix, k + 2)] + have[:2])


def op_lcon(sim, m):
    la, ld, lh = lin_arg(sim, m)
    s = sim.pick(["<=", ">=", "=="])
    sense = sim.pick(SENSES[s] + [None, "<>"])
    if sense is None:
        from qiskit_optimization.problems.constraint import ConstraintSense
        arg = {"<=": ConstraintSense.LE, ">=": ConstraintSense.GE, "==": ConstraintSense.EQ}[s]
    else:
        arg = sense
    rhs = num(sim)
    have = [c[0] for c in m.lcons]
    name = con_name(sim, have, "c")
    ok = ld is not None and sense != "<>" and not (name and name in have)
    call = lambda p: p.linear_constraint(la, arg, rhs, name)

    def effect(mm, ret):
        if name and ret.name != name:
            raise Bad("constraint %r was added as %r" % (name, ret.name))
        if ret.name in [c[0] for c in mm.lcons]:
            raise Bad("constraint name %r given twice" % ret.name)
        mm.lcons.append([ret.name, ld, s, rhs])

    return ("linear_constraint", lh, sense, name), call, effect if ok else None


def op_qcon(sim, m):
    la, ld, lh = lin_arg(sim, m)
    qa, qd, qh = quad_arg(sim, m)
    s = sim.pick(["<=", ">=", "=="])
    sense = sim.pick(SENSES[s] + ["!"])
    rhs = num(sim)
    have = [c[0] for c in m.qcons]
    name = con_name(sim, have, "q")
    ok = ld is not None and qd is not None and sense != "!" and not (name and name in have)
    call = lambda p: p.quadratic_constraint(la, qa, sense, rhs, name)

    def effect(mm, ret):
        if name and ret.name != name:
            raise Bad("constraint %r was added as %r" % (name, ret.name))
        if ret.name in [c[0] for c in mm.qcons]:
            raise Bad("constraint name %r given twice" % ret.name)
        mm.qcons.append([ret.name, ld, qd, s, rhs])

    return ("quadratic_constraint", lh, qh, sense, name), call, effect if ok else None


def op_remove(sim, m):
    which = sim.pick(["linear", "quadratic"])
    lst = m.lcons if which == "linear" else m.qcons
    k = sim.draw(5)
    n = len(lst)
    if k == 0 or n == 0 and k < 3:
        key, at = "no such row", None
    elif k == 1:
        key, at = n + sim.draw(2), None
    elif k == 2:
        key, at = -1, n - 1
    else:
        at = sim.draw(n) if n else None
        key = (lst[at][0] if sim.chance(0.5) else at) if n else 0
    call = lambda p: getattr(p, "remove_%s_constraint" % which)(key)

    def effect(mm, ret):
        del (mm.lcons if which == "linear" else mm.qcons)[at]

    return ("remove", which, key), call, effect if at is not None else None


def op_bound(sim, m):
    if not m.vars:
        return op_var(sim, m)
    i = sim.draw(len(m.vars))
    name, kind, lo, hi = m.vars[i]
    if kind == "b":
        return op_var(sim, m)
    side = sim.pick(["lowerbound", "upperbound"])
    val = sim.pick([0, 1, -4, 6, 2.5])
    ok = val <= hi if side == "lowerbound" else lo <= val
    key = name if sim.chance(0.5) else i

    def call(p):
        setattr(p.get_variable(key), side, val)

    def effect(mm, ret):
        mm.vars[i][2 if side == "lowerbound" else 3] = val

    return ("bound", name, side, val), call, effect if ok else None


def op_edit(sim, m):
    """Edit parts in place through the element setters."""
    k = sim.draw(7)
    n = len(m.vars)
    if k >= 5 and n:
        # one coefficient; an expression made before variables were added may not accept the new ones
        i, j, c = sim.draw(n), sim.draw(n), num(sim)
        ki = m.vars[i][0] if sim.chance(0.5) else i
        kj = m.vars[j][0] if sim.chance(0.5) else j
        row = sim.draw(len(m.lcons) + 1) - 1
        covers = m.sizes.get("obj" if row < 0 or k == 6 else ("l", m.lcons[row][0]), 0) >= n
        if k == 5:
            def call(p):
                (p.objective.linear if row < 0 else p.get_linear_constraint(row).linear)[ki] = c
            def effect(mm, ret):
                if row < 0:
                    mm.obj = [mm.obj[0], mm.obj[1], {**mm.obj[2], i: c}, mm.obj[3]]
                else:
                    mm.lcons[row][1] = {**mm.lcons[row][1], i: c}
            return ("linear[i]=", row, ki, c), call, effect if covers else "either"
        def call(p):
            p.objective.quadratic[ki, kj] = c
        def effect(mm, ret):
            mm.obj = [mm.obj[0], mm.obj[1], mm.obj[2], {**canon(mm.obj[3]), (min(i, j), max(i, j)): c}]
        return ("quadratic[i,j]=", ki, kj, c), call, effect if covers else "either"
    if k == 0:
        c = num(sim)
        def call(p):
            p.objective.constant = c
        def effect(mm, ret):
            mm.obj = [mm.obj[0], c, mm.obj[2], mm.obj[3]]
        return ("objective.constant", c), call, effect
    if k == 1:
        la, ld, lh = lin_arg(sim, m)
        if lh == "none":
            la, ld = {}, {}
        def call(p):
            p.objective.linear = la
        def effect(mm, ret):
            mm.obj = [mm.obj[0], mm.obj[1], ld, mm.obj[3]]
        return ("objective.linear", lh), call, effect if ld is not None else None
    if k == 2:
        qa, qd, qh = quad_arg(sim, m)
        if qh == "none":
            qa, qd = {}, {}
        def call(p):
            p.objective.quadratic = qa
        def effect(mm, ret):
            mm.obj = [mm.obj[0], mm.obj[1], mm.obj[2], qd]
        return ("objective.quadratic", qh), call, effect if qd is not None else None
    if k == 3 and m.lcons:
        i = sim.draw(len(m.lcons))
        la, ld, lh = lin_arg(sim, m)
        if lh == "none":
            la, ld = {}, {}
        def call(p):
            p.get_linear_constraint(m.lcons[i][0]).linear = la
        def effect(mm, ret):
            mm.lcons[i][1] = ld
        return ("constraint.linear", lh), call, effect if ld is not None else None
    if m.qcons:
        i = sim.draw(len(m.qcons))
        r = num(sim)
        def call(p):
            p.get_quadratic_constraint(i).rhs = r
        def effect(mm, ret):
            mm.qcons[i][4] = r
        return ("constraint.rhs", r), call, effect
    s = sim.pick(["a", "", "new name"])
    def call(p):
        p.name = s
    def effect(mm, ret):
        mm.name = s
    return ("name", s), call, effect


def op_clear(sim, m):
    def effect(mm, ret):
        mm.clear()
        mm.name = ""
    return ("clear",), lambda p: p.clear(), effect


def op_docplex(sim, m):
    from docplex.mp.model import Model as DModel

    bad = sim.weighted([(3, None), (1, "not-equal"), (1, "semicont"), (1, "dup-name"), (1, "indicator"), (1, "not-a-model")])
    if bad == "not-a-model":
        return ("from_docplex", bad), lambda p: p.from_docplex(object()), None
    d = DModel(sim.pick(["dm", "other"]))
    mv = []
    n = 1 + sim.draw(3)
    xs = []
    for i in range(n):
        kind = sim.pick(["b", "i", "c"])
        nm = sim.pick(["d%d", "x%d", None])
        nm = nm % i if nm else None
        if kind == "b":
            xs.append(d.binary_var(name=nm))
            fix = sim.weighted([(4, None), (1, 0), (1, 1)])
            if fix is None:
                mv.append([nm, "b", 0, 1])
            else:
                xs[-1].lb = xs[-1].ub = fix
                mv.append([nm, "i", fix, fix])
        elif kind == "i":
            xs.append(d.integer_var(lb=-2, ub=5, name=nm)); mv.append([nm, "i", -2, 5])
        else:
            xs.append(d.continuous_var(lb=0, ub=3.5, name=nm)); mv.append([nm, "c", 0, 3.5])
    def side(terms, quads, force_expr=False):
        """A drawn expression: (docplex expression, constant, {i: c}, {(i, j): c})"""
        c = num(sim) if sim.chance(0.6) else 0
        li = {i: num(sim) for i in range(n) if sim.chance(terms)}
        qu = {(i, j): num(sim) for i in range(n) for j in range(i, n) if sim.chance(quads)}
        li = {i: a for i, a in li.items() if a}
        qu = {k: a for k, a in qu.items() if a}
        if not qu and not c and len(li) == 1 and sim.chance(0.5):
            (i,) = li
            return xs[i], 0, {i: 1}, {}      # a bare variable
        e = 0
        for (i, j), a in qu.items():
            e = e + a * xs[i] * xs[j]
        for i, a in li.items():
            e = e + a * xs[i]
        if c or not (li or qu):
            e = e + c
        return e, c, li, qu

    sense = sim.pick([1, -1])
    oexpr, c0, lin, quad = side(0.6, 0.3)
    (d.minimize if sense == 1 else d.maximize)(oexpr)
    lc, qc = [], []
    names = []
    mixed = sim.chance(0.5)
    for k in range(sim.draw(4)):
        quadratic = sim.chance(0.5)
        le, lcst, ll, lq = side(0.5, 0.4 if quadratic else 0)
        re_, rcst, rl, rq = side(0.3, 0.2 if quadratic else 0)
        if not (ll or lq or rl or rq):
            continue
        for key in list(rq):
            if key in lq and lq[key] == rq[key]:
                break
        else:
            cs = sim.pick(["<=", ">=", "=="])
            ct = le <= re_ if cs == "<=" else (le >= re_ if cs == ">=" else le == re_)
            if isinstance(ct, bool) or not hasattr(ct, "get_left_expr"):
                continue
            # (a model mixing unnamed rows with rows named like the package's own choices may be refused)
            nm = sim.pick(["row%d" % k, None] if mixed else ["row%d" % k, "c0", "q0", "c1", "q1"])
            if nm in names:
                nm = "row%d" % k
            if nm is not None:
                names.append(nm)
            d.add_constraint(ct, nm)
            ld = {i: ll.get(i, 0) - rl.get(i, 0) for i in set(ll) | set(rl)}
            qd = {i: lq.get(i, 0) - rq.get(i, 0) for i in set(lq) | set(rq)}
            if lq or rq:
                qc.append([nm, ld, qd, cs, rcst - lcst])
            else:
                lc.append([nm, ld, cs, rcst - lcst])
    if bad == "not-equal":
        b = d.integer_var(lb=0, ub=4, name="ne")
        d.add_constraint(b != 2)
    elif bad == "semicont":
        d.semicontinuous_var(lb=1, ub=3, name="sc")
    elif bad == "dup-name":
        d.binary_var(name="twice")
        d.binary_var(name="twice2").set_name("twice")
    elif bad == "indicator":
        b = d.binary_var(name="ind")
        d.add_indicator(b, xs[0] + xs[-1] <= 1)

    def effect(mm, ret):
        mm.clear()
        mm.name = d.name
        mm.vars = [list(v) for v in mv]
        mm.obj = [sense, c0, lin, quad]
        mm.lcons = [list(c) for c in lc]
        mm.qcons = [list(c) for c in qc]
        # unnamed variables and constraints get a name of the package's choice
        mm.adopt_names = True

    # a model with two variables of the same name may be refused or not (docplex itself may forbid it)
    return ("from_docplex", bad), lambda p: p.from_docplex(d), effect if bad is None else ("either" if bad == "dup-name" else None)


def op_ising(sim, m):
    from qiskit.opflow import PauliSumOp, I, X, Z

    n = 1 + sim.draw(3)
    bad = sim.weighted([(3, None), (1, "x"), (1, "zzz"), (1, "list")])
    terms = [("".join("Z" if j in q else "I" for j in range(n)), c) for q, c in
             [((i,), num(sim)) for i in range(n)] + [((i, j), num(sim)) for i in range(n) for j in range(i + 1, n)] if c]
    off = num(sim)
    if not terms:
        terms = [("Z" + "I" * (n - 1), 1.0)]
    if bad == "x":
        terms = terms + [("X" + "I" * (n - 1), 1.0)]
    if bad == "zzz":
        n = max(n, 3)
        terms = [("I" * (n - len(t)) + t, c) for t, c in terms] + [("Z" * n, 1.0)]
    op = PauliSumOp.from_list(terms)
    if bad == "list":
        from qiskit.opflow import ListOp
        op = ListOp([op, op])
    linear = sim.chance(0.5)

    def effect(mm, ret):
        mm.ising = (terms, off, n)

    return ("from_ising", bad, n), lambda p: p.from_ising(op, off, linear=linear), effect if bad is None else None


def op_copy(sim, m):
    """deepcopy: replaces the program under construction by its copy."""
    return ("deepcopy",), lambda p: copy.deepcopy(p), "copy"


def op_substitute(sim, m):
    n = len(m.vars)
    if not n or not all(len(m.vars) for _ in [0]):
        return op_var(sim, m)
    i = sim.draw(n)
    bad = sim.weighted([(3, None), (1, "unknown"), (1, "self"), (1, "zero"), (1, "twice")])
    name, kind, lo, hi = m.vars[i]
    val = sim.pick([v for v in (0, 1, 2, lo, hi) if lo <= v <= hi and abs(v) < 1e6] or [None])
    if val is None:
        return op_var(sim, m)
    key = name if sim.chance(0.5) else i
    if bad == "unknown":
        return ("substitute", bad), lambda p: p.substitute_variables(constants={"no such variable": 1}), None
    if bad == "self":
        return ("substitute", bad), lambda p: p.substitute_variables(variables={key: (key, 1)}), None
    if bad == "zero":
        if n < 2:
            return op_var(sim, m)
        return ("substitute", bad), lambda p: p.substitute_variables(variables={key: (m.vars[(i + 1) % n][0], 0)}), None
    if bad == "twice":
        if n < 2:
            return op_var(sim, m)
        return ("substitute", bad), lambda p: p.substitute_variables(constants={key: val}, variables={key: (m.vars[(i + 1) % n][0], 1)}), None
    if n >= 2 and sim.chance(0.5):
        # replace by a multiple of another variable, possibly fixing a third one as well
        j = (i + 1 + sim.draw(n - 1)) % n
        c = sim.pick([1, -1, 2, -0.5])
        fixed = {}
        rest = [k for k in range(n) if k not in (i, j) and abs(m.vars[k][2]) < 1e6]
        if rest and sim.chance(0.4):
            k = sim.pick(rest)
            fixed[k] = m.vars[k][2]
        a, b = sorted(v / c if abs(v) < INF else (v if c > 0 else -v) for v in (lo, hi))
        ok = max(a, m.vars[j][2]) <= min(b, m.vars[j][3])
        kj = m.vars[j][0] if sim.chance(0.5) else j
        call = lambda p: p.substitute_variables(constants={m.vars[k][0]: v for k, v in fixed.items()} or None, variables={key: (kj, c)})
        return ("substitute", name, m.vars[j][0], c, tuple(fixed.items())), call, ("replace", i, j, c, fixed) if ok else "either"
    return ("substitute", name, val), lambda p: p.substitute_variables(constants={key: val}), ("substitute", i, val)


OPS = [(6, op_var), (5, op_batch), (3, op_objective), (4, op_lcon), (4, op_qcon), (4, op_remove), (2, op_bound), (2, op_edit), (1, op_clear),
       (2, op_docplex), (1, op_ising), (1, op_copy), (2, op_substitute)]


def f_view(v, x):
    s, c, lin, quad = v[1]
    return c + sum(a * x[i] for i, a in lin) + sum(a * x[i] * x[j] for (i, j), a in quad)


def con_vals(v, x):
    out = {}
    for c in v[2]:
        out["L", c[0]] = (sum(a * x[i] for i, a in c[1]), c[2], c[3])
    for c in v[3]:
        out["Q", c[0]] = (sum(a * x[i] for i, a in c[1]) + sum(a * x[i] * x[j] for (i, j), a in c[2]), c[3], c[4])
    return out


def check_substituted(sim, m, q, effect, op):
    """The returned program is the source with variables fixed or replaced (compared at drawn points)."""
    consistent(sim, q, op)
    v = view(q)
    names = m.names()
    if effect[0] == "substitute":
        fixed, repl = {effect[1]: effect[2]}, None
    else:
        fixed, repl = effect[4], effect[1:4]
    gone = set(fixed) | ({repl[0]} if repl else set())
    keep = [k for k in range(len(names)) if k not in gone]
    sim.check([a[0] for a in v[0]] == [names[k] for k in keep], "substitution-variables", lambda: "%r: %r from %r" % (op, v[0], names))
    src = model_view(m)
    for k, got in zip(keep, v[0]):
        _, kind, lo, hi = src[0][k]
        if repl and repl[1] == k:
            c = repl[2]
            a, b = sorted(t / c if abs(t) < INF else (t if c > 0 else -t) for t in src[0][repl[0]][2:])
            lo, hi = max(lo, a), min(hi, b)
        sim.check(got[1] == kind and close(got[2], lo) and close(got[3], hi), "substitution-bounds",
                  lambda: "%r: %r, expected %r" % (op, got, (kind, lo, hi)))
    hist = []
    for _ in range(3):
        x = [float(sim.rint(-2, 3)) for _ in names]
        for k, val in fixed.items():
            x[k] = float(val)
        if repl:
            x[repl[0]] = repl[2] * x[repl[1]]
        y = [x[k] for k in keep]
        sim.check(close(f_view(src, x), f_view(v, y)), "substitution-objective", lambda: "%r at %r: %r, source %r" % (op, y, f_view(v, y), f_view(src, x)))
        a, b = con_vals(src, x), con_vals(v, y)
        hist.append((a, b))
        # a quadratic row may become linear, and a row without variables may disappear (or make the program infeasible)
        for (_, nm), (lhs, sense, rhs) in b.items():
            known = any(n2 == nm for _, n2 in a)   # a row whose name was taken may be renamed
            cand = [t for (k, n2), t in a.items() if (n2 == nm or not known) and t[1] == sense and close(t[0] - t[2], lhs - rhs)]
            sim.check(bool(cand), "substitution-constraint", lambda: "%r: row %s is %r %s %r at %r; source rows %r" % (op, nm, lhs, sense, rhs, y, a))
    # no row that still depends on variables is lost
    for key in hist[0][0]:
        vals = [a[key][0] - a[key][2] for a, _ in hist]
        sense = hist[0][0][key][1]
        if max(vals) - min(vals) > 1e-9:
            sim.check(any(hist[0][1][k][1] == sense and all(close(b[k][0] - b[k][2], w) for (_, b), w in zip(hist, vals)) for k in hist[0][1]),
                      "substitution-lost-constraint", lambda: "%r: row %r of the source is missing in %r" % (op, key, v))


def adopt(m, p):
    """Model := program (after an operation whose acceptance is the package's choice)."""
    v = view(p)
    m.vars = [list(t) for t in v[0]]
    m.obj = [v[1][0], v[1][1], dict(v[1][2]), dict(v[1][3])]
    m.lcons = [[c[0], dict(c[1]), c[2], c[3]] for c in v[2]]
    m.qcons = [[c[0], dict(c[1]), dict(c[2]), c[3], c[4]] for c in v[3]]


def run(sim):
    from qiskit_optimization import QuadraticProgram

    progs = [QuadraticProgram(), QuadraticProgram("second")]
    models = [Model(), Model()]
    models[1].name = "second"
    old = []   # programs left behind (sources of copies and substitutions), which must stay as they are
    last = []
    rejected = 0
    for _ in range(4 + sim.draw(27)):
        w = 0 if sim.draw(4) else 1
        p, m = progs[w], models[w]
        if len(m.vars) > 14:
            op, call, effect = op_clear(sim, m)
        else:
            op, call, effect = sim.weighted(OPS)(sim, m)
        before = snap(sim, p, op)
        try:
            ret, err = call(p), None
        except Exception as e:
            ret, err = None, e
        sim.ev(w, op, "raised %s" % type(err).__name__ if err is not None else "ok")
        last = (last + [(op[0], err is None)])[-3:]
        if err is not None:
            rejected += 1
            sim.fault("rejected-operation")
            sim.check(snap(sim, p, op) == before, "rejected-operation-changed-program",
                      lambda: "%r raised %r but the program went from %r to %r" % (op, err, before, gen.snapshot(p)))
            sim.check(effect is None or effect == "either", "valid-operation-refused", lambda: "%r raised %r on %r" % (op, err, model_view(m)))
        elif effect is None or effect == "either":
            # accepted although the reference would refuse it: it must at least be consistent
            sim.probe("accepted-unexpectedly")
            snap(sim, p, op)
            consistent(sim, p, op)
            adopt(m, p)
            m.name = p.name
        elif effect == "copy":
            old.append((p, snap(sim, p, op)))
            progs[w] = p = ret
            sim.check(ret is not old[-1][0], "copy-is-same", "")
        elif isinstance(effect, tuple):
            sim.check(snap(sim, p, op) == before, "substitution-changed-source", lambda: repr(op))
            check_substituted(sim, m, ret, effect, op)
            if sim.chance(0.4) and ret.get_num_vars():
                old.append((p, before))
                progs[w] = p = ret
                adopt(m, p)
        else:
            if rejected:
                sim.probe("nontrivial")
            try:
                effect(m, ret)
            except Bad as e:
                sim.check(False, "wrong-names", "%r: %s" % (op, e))
            if getattr(m, "adopt_names", False):
                del m.adopt_names
                got = [v.name for v in p.variables]
                sim.check(len(got) == len(m.vars) and all(a[0] in (None, g) for a, g in zip(m.vars, got)), "wrong-names", lambda: "%r gave %r" % (op, got))
                for a, g in zip(m.vars, got):
                    a[0] = g
                for rows, cons in ((m.lcons, p.linear_constraints), (m.qcons, p.quadratic_constraints)):
                    got = [c.name for c in cons]
                    sim.check(len(got) == len(rows) and all(a[0] in (None, g) for a, g in zip(rows, got)), "wrong-names",
                              lambda: "%r gave the rows %r, expected %r" % (op, got, [r[0] for r in rows]))
                    for a, g, c in zip(rows, got, cons):
                        a[0] = g
                        # the operators of the modelling library may swap the sides, turning a >= b into b <= a
                        e = {int(i): float(v) for i, v in c.linear.to_dict().items() if v}
                        if len(a) == 5 and not e:
                            e = {int(i) * 100 + int(j): float(v) for (i, j), v in c.quadratic.to_dict().items() if v}
                            mine = {i * 100 + j: v for (i, j), v in a[2].items() if v}
                        else:
                            mine = {i: v for i, v in a[1].items() if v}
                        if e and all(close(mine.get(i, 0), -v) for i, v in e.items()):
                            for t in a[1:-2]:
                                t.update({i: -v for i, v in t.items()})
                            a[-2] = {"<=": ">=", ">=": "<=", "==": "=="}[a[-2]]
                            a[-1] = -a[-1]
            if getattr(m, "ising", None):
                terms, off, nq = m.ising
                m.ising = None
                v = view(p)
                sim.check([t[1] for t in v[0]] == ["b"] * nq and not v[2] and not v[3], "ising-content", lambda: "%r gave %r" % (op, v))
                for bits in itertools.product([0, 1], repeat=nq):
                    e = off + sum(c * math.prod((-1) ** bits[nq - 1 - j] for j, ch in enumerate(t) if ch == "Z") for t, c in terms)
                    sim.check(close(v[1][0] * f_view(v, bits), e), "ising-energy", lambda: "%r at %r: %r, operator %r (%r, %r)" % (op, bits, f_view(v, bits), e, terms, off))
                adopt(m, p)
                m.name = p.name
        if err is None and op[0] in ("minimize", "maximize"):
            m.sizes["obj"] = len(m.vars)
        elif err is None and op[0] == "linear_constraint":
            m.sizes["l", ret.name] = len(m.vars)
        elif op[0] in ("remove", "deepcopy", "substitute", "from_docplex", "from_ising", "objective.linear", "objective.quadratic",
                       "constraint.linear"):
            m.sizes.clear()
        for q, mm in zip(progs, models):
            snap(sim, q, op)
            consistent(sim, q, op)
            sim.check(same_view(view(q), model_view(mm)), "content-differs",
                      lambda: "after %r: program %r, expected %r" % (op, view(q), model_view(mm)))
            sim.check(q.name == mm.name, "name-differs", lambda: "after %r: %r, expected %r" % (op, q.name, mm.name))
        for q, was in old:
            sim.check(snap(sim, q, op) == was, "left-behind-program-changed", lambda: "by %r" % (op,))
        sim.state(tuple(sorted(v[1] for v in m.vars)), len(m.lcons), len(m.qcons), tuple(last))
