"""C14: LP files are complete or the failure is reported."""
import errno
import os

from sim import fsim, gen
from sim.core import close

RUNS = {"quick": 2400, "thorough": 150000}
BATCH = 25
RULE = ("one run = one program written to and read from a simulated disk under a drawn fault plan (open, write, torn and short writes, "
        "close, read errors), after a crash that tears the file, or after corruption of the stored bytes, followed by a retry on a "
        "healthy disk. The file is read independently by CPLEX and compared with what the package loaded. Non-trivial when a fault, "
        "truncation or corruption took effect; distinct by digest of the event log")
REAL = ["QuadraticProgram LP export/import", "docplex printer and reader", "CPLEX LP reader", "Python's buffered and text I/O layers"]
STUB = ["the disk below Python's raw I/O layer (errors, short, torn and lost writes, read errors)"]
STATE_MEASURE = "hash of (mode, fault kinds that took effect, outcome, relative position of the fault)"
ASSUMPTIONS = ["CPLEX's own reader is the reference for what a (damaged) file says", "variables occurring nowhere are not represented in the format",
               "an empty file may be read as an empty program", "CPLEX reads the file natively, below the simulated disk"]
INF = 1e20


def program(sim):
    k = sim.draw(3)
    if sim.chance(0.03):
        # a file of several blocks
        s = gen.Spec()
        n = 30 + sim.draw(40)
        s.vars = [("a_rather_long_name_%d" % i, *sim.pick([("b", 0, 1), ("i", -3, 9), ("c", -2.5, INF)])) for i in range(n)]
        s.sense = sim.pick([1, -1])
        s.const = sim.pick([0, 2.5])
        step = 1 + sim.draw(5)
        s.lin = {i: 1.25 + i for i in range(0, n, step)}
        s.quad = {(i, (i + d) % n) if i < (i + d) % n else ((i + d) % n, i): 0.5 + d for i in range(n) for d in (1, 7, 11)}
        s.lcons = [("row_%d" % k, {i: (i % 7) - 3 or 4 for i in range(k, n, 3)}, ["<=", ">=", "=="][k % 3], k - 5) for k in range(12)]
        s.name = "several blocks"
        return s
    if k == 0:
        s = gen.discrete(sim, max_vars=5, max_bits=30, halves=True)
    elif k == 1:
        s = gen.continuous(sim, max_vars=4)
    else:
        s = gen.discrete(sim, max_vars=3, max_bits=20, halves=True)
        n = len(s.vars)
        extra = sim.draw(3)
        names = [v[0] for v in s.vars]
        for i in range(extra):
            s.vars.append(("w%d" % i, "c", *sim.pick([(0, INF), (-INF, INF), (-1.25, 7), (0, 3.5), (2, 2)])))
            s.lin[n + i] = sim.pick([1, -0.125, 1234567.5, 0.333333333333])
        if extra:
            s.quad[(0, n)] = sim.pick([1, -2.5])
            s.lcons.append(("mix", {0: 2, n: -0.75}, sim.pick(["<=", ">=", "=="]), sim.pick([0, 3, -2.5])))
            if sim.chance(0.5):
                s.qcons.append(("qmix", {0: 1} if sim.chance(0.5) else {}, {(0, n): 1.5, (n, n): 2}, sim.pick(["<=", ">="]), sim.pick([4, 0, -1])))
    s.name = sim.pick(["lp", "my problem", "x", "Problem-2 (final)", "a:b", ""])
    # names as the format allows them
    s.lcons = [(c[0].replace(" ", "_"),) + c[1:] for c in s.lcons]
    return s


def content(variables, sense, const, lin, quad, lcons, qcons):
    """Comparable content, by variable name; variables used nowhere are left out."""
    used = set(lin) | {a for q in quad for a in q}
    for c in lcons:
        used |= set(c[1])
    for c in qcons:
        used |= set(c[1]) | {a for q in c[2] for a in q}
    return {"vars": {n: v for n, v in variables.items() if n in used}, "sense": sense, "const": const, "lin": lin, "quad": quad,
            "lcons": lcons, "qcons": qcons, "unused": {n: v for n, v in variables.items() if n not in used}}


def key(a, b):
    return tuple(sorted((a, b)))


def of_spec(s):
    nm = [v[0] for v in s.vars]
    q = lambda d: {key(nm[i], nm[j]): float(c) for (i, j), c in d.items() if c}
    l = lambda d: {nm[i]: float(c) for i, c in d.items() if c}
    return content({v[0]: (v[1], float(v[2]), float(v[3])) for v in s.vars}, s.sense, float(s.const), l(s.lin), q(s.quad),
                   [(c[0], l(c[1]), c[2], float(c[3])) for c in s.lcons], [(c[0], l(c[1]), q(c[2]), c[3], float(c[4])) for c in s.qcons])


def of_program(p):
    return of_spec(gen.spec_of(p))


class Unusual(Exception):
    """The file says something a QuadraticProgram cannot represent."""


def of_cplex(path):
    """What CPLEX itself reads from the file; raises if it refuses."""
    import cplex

    c = cplex.Cplex()
    for st in (c.set_log_stream, c.set_results_stream, c.set_warning_stream, c.set_error_stream):
        st(None)
    try:
        c.read(path, "lp")
        if c.SOS.get_num() or c.indicator_constraints.get_num() or c.pwl_constraints.get_num():
            raise Unusual("sos or indicator")
        nm = c.variables.get_names()
        n = len(nm)
        if c.get_problem_type() in (c.problem_type.LP, c.problem_type.QP, c.problem_type.QCP):
            types = ["C"] * n
        else:
            types = list(c.variables.get_types()) if n else []
        if any(t not in "CBI" for t in types):
            raise Unusual("variable type")
        lb, ub = c.variables.get_lower_bounds(), c.variables.get_upper_bounds()
        vs = {nm[i]: ({"C": "c", "B": "b", "I": "i"}[types[i]], float(lb[i]), float(ub[i])) for i in range(n)}
        sense = 1 if c.objective.get_sense() == c.objective.sense.minimize else -1
        lin = {nm[i]: float(v) for i, v in enumerate(c.objective.get_linear()) if v} if n else {}
        quad = {}
        if c.objective.get_num_quadratic_nonzeros():
            for i, row in enumerate(c.objective.get_quadratic()):
                for j, v in zip(row.ind, row.val):
                    quad[key(nm[i], nm[j])] = quad.get(key(nm[i], nm[j]), 0.0) + v / 2
        S = {"L": "<=", "G": ">=", "E": "=="}
        lcons = []
        rows, senses, rhs, names = (c.linear_constraints.get_rows(), c.linear_constraints.get_senses(), c.linear_constraints.get_rhs(),
                                    c.linear_constraints.get_names()) if c.linear_constraints.get_num() else ([], [], [], [])
        for r, s, b, name in zip(rows, senses, rhs, names):
            if s not in S:
                raise Unusual("ranged row")
            d = {}
            for i, v in zip(r.ind, r.val):
                if v:
                    d[nm[i]] = d.get(nm[i], 0.0) + v
            lcons.append((name, d, S[s], float(b)))
        qcons = []
        for i in range(c.quadratic_constraints.get_num()):
            l = c.quadratic_constraints.get_linear_components(i)
            q = c.quadratic_constraints.get_quadratic_components(i)
            dq = {}
            for a, b, v in zip(q.ind1, q.ind2, q.val):
                dq[key(nm[a], nm[b])] = dq.get(key(nm[a], nm[b]), 0.0) + v
            qcons.append((c.quadratic_constraints.get_names(i), {nm[a]: float(v) for a, v in zip(l.ind, l.val) if v},
                          {k: v for k, v in dq.items() if v}, S[c.quadratic_constraints.get_senses(i)], float(c.quadratic_constraints.get_rhs(i))))
        return content(vs, sense, float(c.objective.get_offset()), lin, {k: v for k, v in quad.items() if v}, lcons, qcons)
    finally:
        c.end()


def num_eq(a, b):
    return close(a, b, 1e-9) or (abs(a) >= INF and abs(b) >= INF and (a > 0) == (b > 0))


def dict_eq(a, b):
    return set(a) == set(b) and all(num_eq(a[k], b[k]) for k in a)


def binary(v):
    """A binary variable with narrowed bounds may be represented as an integer one."""
    if v[0] != "b":
        return v
    lb, ub = max(0.0, v[1]), min(1.0, v[2])
    return ("b", 0.0, 1.0) if (lb, ub) == (0.0, 1.0) else ("i", lb, ub)


def var_eq(a, b):
    a, b = binary(a), binary(b)
    return a[0] == b[0] and num_eq(a[1], b[1]) and num_eq(a[2], b[2])


def diff(want, got, names=True):
    """None if equal, else what differs (rows are compared as a multiset; unused variables may be missing but not altered)."""
    for n, v in want["vars"].items():
        g = got["vars"].get(n) or got["unused"].get(n)
        if g is None or not var_eq(v, g):
            return "variable %s: %r, file or program says %r" % (n, g, v)
    for n, v in list(got["vars"].items()) + list(got["unused"].items()):
        w = want["vars"].get(n) or want["unused"].get(n)
        if w is None or not var_eq(w, v):
            return "variable %s: %r, file or program says %r" % (n, v, w)
    if want["sense"] != got["sense"]:
        return "objective sense"
    if not num_eq(want["const"], got["const"]):
        return "objective constant %r, should be %r" % (got["const"], want["const"])
    if not dict_eq(want["lin"], got["lin"]) or not dict_eq(want["quad"], got["quad"]):
        return "objective %r %r, should be %r %r" % (got["lin"], got["quad"], want["lin"], want["quad"])
    for kind in ("lcons", "qcons"):
        rest = list(got[kind])
        for c in want[kind]:
            hit = [i for i, g in enumerate(rest) if (not names or g[0] == c[0]) and all(
                dict_eq(a, b) if isinstance(a, dict) else a == b if isinstance(a, str) else num_eq(a, b) for a, b in zip(g[1:], c[1:]))]
            if not hit:
                return "row %r is missing or altered: %r" % (c, got[kind])
            del rest[hit[0]]
        if rest:
            return "additional rows %r" % (rest,)
    return None


def load(sim, disk, path, what):
    """Read the file into a program that already has content; returns the loaded program or None if it raised."""
    from qiskit_optimization import QuadraticProgram

    p = QuadraticProgram("before")
    p.binary_var("keep")
    p.integer_var(0, 7, "me")
    p.minimize(1, {"keep": 2}, {("keep", "me"): 3})
    p.linear_constraint({"keep": 1}, "<=", 1, "row")
    before = gen.snapshot(p)
    try:
        p.read_from_lp_file(path)
    except Exception as e:
        sim.ev("read raised", type(e).__name__)
        sim.check(gen.snapshot(p) == before, "failed-read-changed-program",
                  lambda: "%s: reading raised %r and left %r" % (what, e, gen.snapshot(p)))
        return None
    from props.c13 import consistent
    consistent(sim, p, what)
    return p


def check_loaded(sim, disk, path, p, what):
    """The program loaded from a file equals what CPLEX reads from it."""
    data = disk.read(os.path.basename(path))
    if not data:
        sim.check(p.get_num_vars() == 0 and p.get_num_linear_constraints() == 0 and p.get_num_quadratic_constraints() == 0
                  and not p.objective.linear.to_dict(), "invented-content", lambda: "read from an empty file: %r" % (gen.snapshot(p),))
        return
    try:
        want = of_cplex(path)
    except Unusual as e:
        sim.check(False, "misrepresented-content", "%s: file with %s was loaded as %r" % (what, e, gen.snapshot(p)))
    except Exception as e:  # CPLEX refuses the file
        sim.check(False, "damaged-file-accepted", "%s: CPLEX refuses the file (%s) but it was loaded as %r" % (what, str(e)[:100], gen.snapshot(p)))
    d = diff(want, of_program(p), names=False)
    sim.check(d is None, "differs-from-file", lambda: "%s: %s; file:\n%s" % (what, d, data.decode("latin1")))


def run(sim):
    s = program(sim)
    p = s.build(style=sim.draw(3))
    before = gen.snapshot(p)
    want = of_spec(s)
    sim.ev("program", s.name, s.show())
    mode = sim.weighted([(1, "empty-row"), (2, "healthy"), (4, "write-fault"), (3, "torn"), (3, "corrupt"), (2, "read-fault"), (1, "missing")])
    with fsim.Disk(sim) as disk:
        form = sim.weighted([(4, "plain"), (2, "no-suffix"), (1, "directory"), (1, "overwrite")])
        path = disk.path("f.lp")
        arg = path
        if form == "no-suffix":
            arg = disk.path("f")
        elif form == "directory":
            os.mkdir(disk.path("out"))
            arg = disk.path("out")
        elif form == "overwrite":
            disk.write("f.lp", b"\\ older content\nMinimize\n obj: 3 old\nSubject To\nEnd\n" + b"\\ padding\n" * 2000)

        def written():
            if form != "directory":
                return path if os.path.exists(path) else None
            fs = [f for f in os.listdir(disk.path("out")) if f.endswith(".lp")]
            return os.path.join(disk.path("out"), fs[0]) if len(fs) == 1 else None

        if mode == "empty-row":
            # a row without variables is either always true (and may be left out) or never (and must not be lost)
            sense, rhs = sim.pick(["<=", ">=", "=="]), sim.pick([0, 3, -3, 0.5])
            p.linear_constraint({}, sense, rhs, "without variables")
            before = gen.snapshot(p)
            never = not s._sat(0.0, sense, rhs, 0.0)
            sim.state(mode, sense, never)
            sim.probe("nontrivial")
            try:
                p.write_to_lp_file(arg)
            except Exception as e:
                sim.ev("empty row refused", type(e).__name__)
                sim.check(never, "healthy-write-fails", lambda: repr(e))
                sim.check(gen.snapshot(p) == before, "write-changed-program", "")
                return
            sim.check(gen.snapshot(p) == before, "write-changed-program", "")
            q = load(sim, disk, written(), "row without variables")
            sim.check(q is not None, "unreadable-file-written", "row without variables")
            got = of_program(q)
            empty = [c for c in got["lcons"] if not c[1]]
            if never:
                sim.check(any(not s._sat(0.0, c[2], c[3], 0.0) for c in empty), "infeasible-row-lost",
                          lambda: "0 %s %r was written without complaint and read back as %r" % (sense, rhs, got["lcons"]))
            got["lcons"] = [c for c in got["lcons"] if c[1]]
            d = diff(want, got)
            sim.check(d is None, "roundtrip-differs", lambda: "row without variables: %s" % d)
            return

        def complete(what):
            f = written()
            sim.check(f is not None, "no-file-written", lambda: "%s: write returned but there is no file for %s" % (what, form))
            disk.arm()
            q = load(sim, disk, f, what)
            txt = lambda: disk.read(os.path.relpath(f, disk.root)).decode("latin1")
            sim.check(q is not None, "unreadable-file-written", lambda: "%s: the file written cannot be read:\n%s" % (what, txt()))
            d = diff(want, of_program(q))
            sim.check(d is None, "roundtrip-differs", lambda: "%s: %s; file:\n%s" % (what, d, txt()))
            if s.name:
                sim.check(q.name == s.name, "name-lost", lambda: "%s: name %r, expected %r" % (what, q.name, s.name))
            sim.probe("roundtrip")
            return f

        if mode == "write-fault":
            k = sim.draw(6)
            size = 120 + sim.draw(500) if len(s.vars) < 20 else 9000
            plan = [fsim.Plan(open_error=sim.pick(fsim.OPEN_ERRORS)),
                    fsim.Plan(write_error=sim.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT]), write_after=sim.draw(size)),
                    fsim.Plan(short=True),
                    fsim.Plan(close_error=sim.pick([errno.EIO, errno.ENOSPC])),
                    fsim.Plan(short=True, write_error=errno.ENOSPC, write_after=sim.draw(size)),
                    fsim.Plan(rename_error=errno.EXDEV, sync_error=errno.EIO)][k]
            disk.arm(plan)
            raised = None
            try:
                p.write_to_lp_file(arg)
            except Exception as e:
                raised = e
            hits = sorted(set(disk.hits))
            sim.ev("write", k, hits, type(raised).__name__)
            sim.state(mode, form, tuple(hits), raised is None)
            if hits:
                sim.probe("nontrivial")
            sim.check(gen.snapshot(p) == before, "write-changed-program", "")
            if raised is None:
                complete("write reported success under faults %r" % hits)
            else:
                sim.check(bool(hits), "healthy-write-fails", lambda: repr(raised))
                sim.probe("write-reported-failure")
            disk.arm()
            p.write_to_lp_file(arg)   # faults have stopped
            complete("retry after %r" % hits)
            return
        disk.arm(fsim.Plan(short=sim.chance(0.2)))
        p.write_to_lp_file(arg)
        sim.check(gen.snapshot(p) == before, "write-changed-program", "")
        f = complete(mode)
        if mode == "healthy":
            # the loaded program written again gives the same content
            from qiskit_optimization import QuadraticProgram
            q = QuadraticProgram()
            q.read_from_lp_file(f)
            g = disk.path("again.lp")
            q.write_to_lp_file(g)
            r = load(sim, disk, g, "second generation")
            sim.check(r is not None and diff(want, of_program(r)) is None, "second-generation-differs", "")
            sim.state(mode, form)
            return
        if mode == "missing":
            g = disk.path(sim.pick(["nothing.lp", "no/such/dir.lp"]))
            sim.probe("nontrivial")
            sim.fault("missing-file")
            sim.check(load(sim, disk, g, "missing file") is None, "missing-file-accepted", "")
            return
        data = disk.read(os.path.relpath(f, disk.root))
        g = disk.path("g.lp")
        if mode == "read-fault":
            disk.write("g.lp", data)
            k = sim.draw(3)
            plan = [fsim.Plan(open_error=sim.pick([errno.EACCES, errno.EIO, errno.EMFILE])),
                    fsim.Plan(read_error=errno.EIO, read_after=sim.draw(120)),
                    fsim.Plan(chunk=1 + sim.draw(7))][k]
            disk.arm(plan)
            q = load(sim, disk, g, "read fault")
            hits = sorted(set(disk.hits))
            sim.ev("read fault", hits, q is None)
            sim.state(mode, tuple(hits), q is None)
            if hits:
                sim.probe("nontrivial")
            if q is not None:
                disk.arm()
                d = diff(want, of_program(q))
                sim.check(d is None, "read-under-faults-differs", lambda: d)
                if s.name:
                    sim.check(q.name == s.name, "name-lost", lambda: "%r" % q.name)
            disk.arm()
            q = load(sim, disk, g, "retry")
            sim.check(q is not None and diff(want, of_program(q)) is None, "healthy-read-fails", "")
            return
        if mode == "torn":
            cut = sim.draw(len(data))
            new = data[:cut]
            sim.fault("file-torn-by-crash")
            if sim.chance(0.2):
                new = new + b"\0" * sim.draw(40)  # lost block: zeroes
                sim.fault("lost-block")
        else:
            b = bytearray(data)
            for _ in range(1 + sim.draw(3)):
                at, kind = sim.draw(max(1, len(b))), sim.draw(4)
                if kind == 0 and b:
                    b[at % len(b)] = sim.pick(b"0129<>=+-xyE \n:[]*^\\")
                elif kind == 1:
                    del b[at:at + 1 + sim.draw(12)]
                elif kind == 2:
                    b[at:at] = b[at:at + sim.draw(20)]
                elif b:
                    b[at % len(b)] ^= 1 << sim.draw(7)
            new = bytes(b)
            sim.fault("file-corrupted")
        if new != data:
            sim.probe("nontrivial")
        disk.write("g.lp", new)
        q = load(sim, disk, g, mode)
        sim.ev(mode, len(new), q is None)
        sim.state(mode, q is None, (len(new) * 10) // (len(data) + 1))
        if q is not None:
            sim.probe("damaged-file-loaded")
            check_loaded(sim, disk, g, q, mode)
