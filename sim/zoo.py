"""Every optimizer of the package, assembled with simulated components whose healthy answers are functions of
their input (so that the same call gives the same answer whenever and wherever it is made) and whose faults are
decided per call by a controller."""
import enum
import hashlib
import math
import sys

import cvxpy
import numpy as np
import scipy.optimize
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

from . import core, gen, oracle, worlds
from .core import Budget, SimFault
from .seams import patch_everywhere


class Ctl:
    """Counts component calls of one solve and decides which of them fails, and how."""

    def __init__(self, sim, plan=None, max_calls=600):
        self.sim = sim
        self.plan = plan            # callable(index, component, kinds) -> kind or None
        self.n = 0
        self.max_calls = max_calls
        self.log = []               # (index, component, kind)
        self.fatal = None           # the exception object injected, if any

    def step(self, comp, kinds):
        i = self.n
        self.n += 1
        if i >= self.max_calls:
            raise Budget("%d component calls" % i)
        k = self.plan(i, comp, kinds) if self.plan else None
        self.sim.advance(0.25)
        if k is not None:
            self.log.append((i, comp, k))
            self.sim.fault("%s-%s" % (comp, k))
        if k == "stall":
            self.sim.advance(1e6)
            self.raise_(TimeoutError("job timed out"))
        if k == "raise":
            self.raise_(SimFault("component failed"))
        if k == "raise-value":
            self.raise_(ValueError("component failed"))
        if k == "raise-lookup":
            self.raise_(KeyError("component failed"))
        if k == "raise-type":
            self.raise_(TypeError("component failed"))
        if k == "raise-runtime":
            self.raise_(RuntimeError("component failed"))
        if k == "raise-memory":
            self.raise_(MemoryError("component failed"))
        if k == "raise-arithmetic":
            self.raise_(ZeroDivisionError("component failed"))
        if k == "raise-linalg":
            self.raise_(np.linalg.LinAlgError("component failed"))
        if k == "raise-not-implemented":
            self.raise_(NotImplementedError("component failed"))
        if k == "raise-index":
            self.raise_(IndexError("component failed"))
        if k == "raise-os":
            self.raise_(OSError("connection lost"))
        if k == "raise-library":
            from qiskit.exceptions import QiskitError
            self.raise_(QiskitError("component failed"))
        if k == "raise-attribute":
            self.raise_(AttributeError("component failed"))
        if k == "raise-qiskit":
            from qiskit_optimization import QiskitOptimizationError
            self.raise_(QiskitOptimizationError("component failed"))
        return k

    def raise_(self, e):
        self.fatal = e
        raise e


EXC = ["raise", "raise-library", "raise-attribute", "raise-value", "raise-lookup", "raise-type", "raise-os", "raise-qiskit", "stall",
       "raise-runtime", "raise-memory", "raise-arithmetic", "raise-linalg", "raise-not-implemented", "raise-index"]
STATE_KINDS = EXC + ["none", "nan-state", "zero-state"] * 2
RESULT_KINDS = EXC + ["failure-result", "nan-result", "infeasible-status"] * 2
POINT_KINDS = EXC + ["nan-point", "far-point"] * 2


def hmix(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def rounded(terms):
    return tuple((round(c.real, 6), tuple(q)) if c != "table" else ("t", q[0], tuple(np.round(q[1], 6))) for c, q in terms)


class PureEigensolver(MinimumEigensolver):
    """Answers depend on the operator only: exact ground state, or a fixed 'noisy' distribution around it."""

    def __init__(self, ctl, mode="exact", fmt="vector"):
        self.ctl = ctl
        self.mode = mode
        self.fmt = fmt
        self.initial_state = None
        self.mixer = None

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        k = self.ctl.step("eigensolver", STATE_KINDS)
        n = operator.num_qubits
        res = MinimumEigensolverResult()
        res.eigenvalue = complex(0)
        if k == "none":
            return res
        terms = worlds.z_terms(operator)
        es = [(worlds.energy(terms, worlds.bits_of(j, n)), worlds.bits_of(j, n)) for j in range(2 ** n)]
        emin = min(e for e, _ in es)
        ground = [b for e, b in es if e <= emin + 1e-7 * max(1.0, abs(emin))]
        if self.mode == "exact":
            dist = {ground[0]: 1.0}
        else:
            h = hmix(rounded(sorted((t for t in terms if t[0] != "table"), key=lambda t: tuple(t[1]))), n)
            other = worlds.bits_of(h % 2 ** n, n)
            dist = {}
            for b, p in ((ground[0], 0.5), (ground[-1], 0.25), (other, 0.25)):
                dist[b] = dist.get(b, 0.0) + p
        if k in ("nan-state", "zero-state"):
            vec = np.zeros(2 ** n, dtype=complex)
            if k == "nan-state":
                vec[:] = np.nan
            res.eigenstate = vec
            return res
        res.eigenstate = worlds.make_eigenstate(_Zero(), self.fmt, dist, n)
        res.eigenvalue = complex(emin)
        return res


class _Zero:
    @staticmethod
    def draw(_n):
        return 0


class PureBackend(worlds.SimQuantumInstance):
    """Executes the real circuits; outcomes of shots depend on the circuit only."""

    KINDS = EXC + ["corrupt"] * 2

    def __init__(self, ctl, statevector, shots):
        super().__init__(ctl.sim, statevector, shots)
        self.ctl = ctl

    def execute(self, circuits, had_transpiled=False):
        from qiskit.quantum_info import Statevector

        k = self.ctl.step("backend", self.KINDS)
        qc = circuits[0] if isinstance(circuits, (list, tuple)) else circuits
        bare = qc.copy()
        bare.data = [d for d in qc.data if d[0].name not in ("measure", "barrier")]
        meas = {qc.clbits.index(c[0]): qc.qubits.index(q[0]) for inst, q, c in qc.data if inst.name == "measure"}
        sv = Statevector.from_instruction(bare).data
        n = int(round(math.log2(len(sv))))
        if k == "corrupt":
            sv = sv[np.arange(len(sv)) ^ 1]
        if self.is_statevector:
            return worlds._ExecResult(statevector=sv)
        p = np.abs(sv) ** 2
        p /= p.sum()
        rng = np.random.RandomState(hmix(tuple(np.round(p, 6))) % (1 << 32))
        counts = {}
        m = max(meas) + 1 if meas else n
        for o in rng.choice(len(p), size=self.run_config.shots, p=p):
            b = worlds.bits_of(int(o), n)
            c = [b[meas[j]] if j in meas else 0 for j in range(m)] if meas else b
            key = "".join(str(v) for v in reversed(c))
            counts[key] = counts.get(key, 0) + 1
        return worlds._ExecResult(counts=counts)


def pure_optimizer(ctl, name, relaxed=False):
    """A third-party optimizer: exact on small discrete programs, a fixed point on continuous ones."""
    from qiskit_optimization.algorithms import OptimizationAlgorithm, OptimizationResultStatus

    class Pure(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            k = ctl.step(name, RESULT_KINDS)
            if k == "failure-result":
                return worlds.make_result(problem, None, status=OptimizationResultStatus.FAILURE)
            s = gen.spec_of(problem)
            if any(v[1] == "c" for v in s.vars):
                x = [v[2] if v[2] > -1e19 else 0.0 for v in s.vars]
                best = None
                for cand in (x, [min(v[3], 1.0) for v in s.vars], [(a[2] + min(a[3], 2.0)) / 2 for a in s.vars]):
                    key = (not s.feasible(cand, 1e-6), s.sense * s.f(cand))
                    if best is None or key < best[0]:
                        best = (key, cand)
                x = [float(v) for v in best[1]]
            else:
                best = None
                for cand in s.domain() if name != "inner" else ():
                    key = (not s.feasible(cand, 1e-6), round(s.sense * s.f(cand), 7), cand)
                    if best is None or key < best:
                        best = key
                if name == "inner":
                    # an arbitrary answer of its own, unlike that of any other component
                    h = hmix("inner", s.show())
                    x = [float(v[2] + (h >> (5 * i)) % (int(v[3] - v[2]) + 1)) for i, v in enumerate(s.vars)]
                else:
                    x = [float(v) for v in best[2]]
            if k == "nan-result":
                x = [float("nan")] * len(x)
            st = OptimizationResultStatus.SUCCESS if k != "infeasible-status" else OptimizationResultStatus.INFEASIBLE
            other = [1.0 - v if t[1] == "b" else v for v, t in zip(x, s.vars)]
            samples = [(x, 0.7), (other, 0.3)] if other != x else [(x, 1.0)]
            from qiskit_optimization.algorithms import SolutionSample
            sam = [SolutionSample(np.array(v), problem.objective.evaluate(np.array(v)), p, st) for v, p in samples]
            return worlds.make_result(problem, x, samples=sam, status=st)

    return Pure()


# ---- assembling -------------------------------------------------------------------------------------------
ALL = ["meo", "meo-numpy", "grover", "recursive", "recursive-sim", "admm", "admm-sim", "slsqp", "cobyla", "warmstart", "gw", "cplex"]


class Case:
    """One optimizer configuration plus a program it accepts.  `make(ctl)` gives a fresh optimizer."""

    def __init__(self, kind, spec, make, integral, exact=False, random=False, degenerate=False):
        self.kind = kind
        self.spec = spec
        self.make = make
        self.integral = integral
        self.exact = exact      # with healthy components the answer is a true optimum
        self.degenerate = degenerate  # any of several optima may be returned
        self.random = random    # the answer may depend on the ambient generators


def case(sim, kind, small=True, spec=None, cfg=None):
    """Draw a program (unless given) and a configuration for optimizer `kind`."""
    from qiskit.algorithms import NumPyMinimumEigensolver
    from qiskit_optimization.algorithms import (ADMMOptimizer, ADMMParameters, CobylaOptimizer, CplexOptimizer,
                                                GoemansWilliamsonOptimizer, GroverOptimizer, MinimumEigenOptimizer,
                                                RecursiveMinimumEigenOptimizer, SlsqpOptimizer, WarmStartQAOAOptimizer)
    from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import IntermediateResult
    from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty,
                                                QuadraticProgramToQubo)

    def chain(spec, cfg=None):
        kinds = ["default", "qubo", "chain"]
        if not spec.lcons and all(v[1] == "b" for v in spec.vars):
            kinds.append("none")
        k = cfg if cfg is not None and cfg in kinds else sim.pick(kinds)
        return k, lambda: {"default": None, "qubo": QuadraticProgramToQubo(),
                           "chain": [InequalityToEquality(mode="integer"), IntegerToBinary(), LinearEqualityToPenalty()],
                           "none": []}[k]

    if kind in ("meo", "meo-numpy", "recursive", "recursive-sim", "warmstart"):
        bits = 5 if kind in ("warmstart", "recursive", "recursive-sim", "meo-numpy") else 6
        s = spec or program(sim, kind, bits)
        mode = sim.pick(["exact", "noisy"])
        fmt = sim.pick(["vector", "dict", "statefn"])
        ck, conv = chain(s)
        if kind == "meo":
            return Case(kind, s, lambda ctl: MinimumEigenOptimizer(PureEigensolver(ctl, mode, fmt), converters=conv()), True, True)
        if kind == "meo-numpy":
            return Case(kind, s, lambda ctl: MinimumEigenOptimizer(NumPyMinimumEigensolver(), converters=conv()), True, True, degenerate=True)
        if kind == "recursive":
            mn = 1 + sim.draw(3)
            hist = sim.pick([IntermediateResult.LAST_ITERATION, IntermediateResult.ALL_ITERATIONS, IntermediateResult.NO_ITERATIONS])
            return Case(kind, s, lambda ctl: RecursiveMinimumEigenOptimizer(
                MinimumEigenOptimizer(PureEigensolver(ctl, mode, fmt)), min_num_vars=mn,
                min_num_vars_optimizer=MinimumEigenOptimizer(PureEigensolver(ctl, "exact", "vector")),
                converters=conv(), history=hist), True)
        if kind == "recursive-sim":
            mn = 1 + sim.draw(3)
            return Case(kind, s, lambda ctl: RecursiveMinimumEigenOptimizer(
                pure_optimizer(ctl, "inner"), min_num_vars=mn, min_num_vars_optimizer=pure_optimizer(ctl, "last"),
                converters=conv()), True)
        relax = sim.chance(0.5)
        starts = 1 + sim.draw(3)
        return Case(kind, s, lambda ctl: WarmStartQAOAOptimizer(
            pure_optimizer(ctl, "presolver"), relax, PureEigensolver(ctl, mode, fmt), num_initial_solutions=starts,
            converters=conv()), True)
    if kind == "grover":
        s = spec or program(sim, kind)
        sv = sim.chance(0.5)
        shots = sim.pick([1, 64])
        it = sim.pick([2, 4])
        ck, conv = chain(s)
        return Case(kind, s, lambda ctl: GroverOptimizer(5, it, PureBackend(ctl, sv, shots), converters=conv()), True, random=True)
    if kind in ("admm", "admm-sim"):
        s = spec or program(sim, kind)
        par = dict(maxiter=sim.pick([2, 1, 3]), rho_initial=sim.pick([100, 1001]), beta=sim.pick([10, 1000]),
                   factor_c=sim.pick([900, 10]), three_block=sim.draw(2) == 0, vary_rho=sim.draw(2), warm_start=sim.chance(0.3))
        cont = sim.pick(["cobyla", "slsqp"])
        # a parameter object per optimizer
        def mk(ctl):
            q = MinimumEigenOptimizer(PureEigensolver(ctl, "exact", "vector")) if kind == "admm" else pure_optimizer(ctl, "qubo")
            c = pure_optimizer(ctl, "continuous") if kind == "admm-sim" else (
                CobylaOptimizer(maxfun=60) if cont == "cobyla" else SlsqpOptimizer(iter=20))
            return ADMMOptimizer(qubo_optimizer=q, continuous_optimizer=c, params=ADMMParameters(**par))
        return Case(kind, s, mk, False)
    if kind in ("slsqp", "cobyla"):
        s = spec or program(sim, kind)
        trials = sim.pick([1, 1, 3])
        full = sim.chance(0.4)
        if kind == "slsqp":
            return Case(kind, s, lambda ctl: SlsqpOptimizer(trials=trials, full_output=full, iter=30), False, random=trials > 1)
        return Case(kind, s, lambda ctl: CobylaOptimizer(trials=trials, maxfun=80), False, random=trials > 1)
    if kind == "gw":
        s = spec or program(sim, kind)
        nc, so, un, seed = sim.pick([3, 1, 8]), sim.chance(0.6), sim.chance(0.6), sim.draw(50)
        return Case(kind, s, lambda ctl: GoemansWilliamsonOptimizer(nc, sort_cuts=so, unique_cuts=un, seed=seed), True)
    if kind == "cplex":
        s = spec or program(sim, kind)
        return Case(kind, s, lambda ctl: CplexOptimizer(disp=False), True, True)
    raise AssertionError(kind)


def program(sim, kind, bits=5):
    if kind in ("meo", "meo-numpy", "recursive", "recursive-sim", "warmstart", "cplex"):
        return gen.discrete(sim, max_vars=3, max_bits=bits, halves=False)
    if kind == "grover":
        s = gen.Spec()
        names = sim.pick(gen.NAMES)
        n = 1 + sim.draw(3)
        s.vars = [(names[i], "b", 0, 1) for i in range(n)]
        s.sense = sim.pick([1, -1])
        s.const = sim.rint(-1, 1)
        s.lin = {i: c for i in range(n) for c in [sim.rint(-2, 2)] if c}
        if n > 1:
            c = sim.rint(-2, 2)
            if c:
                s.quad[(0, 1)] = c
        return s
    if kind in ("admm", "admm-sim"):
        s = gen.Spec()
        names = sim.pick(gen.NAMES)
        nb, nc = 1 + sim.draw(3), 1 + sim.draw(2)
        s.vars = [(names[i], "b", 0, 1) for i in range(nb)] + [(names[nb + i], "c", 0, 5) for i in range(nc)]
        s.sense = sim.pick([1, -1])
        n = nb + nc
        s.const = sim.rint(-1, 1)
        s.lin = {i: c for i in range(n) for c in [sim.rint(-3, 3)] if c}
        s.quad = {}
        if nb > 1 and sim.chance(0.5):
            s.quad[(0, 1)] = sim.pick([2, -1])
        if sim.chance(0.5):
            s.quad[(n - 1, n - 1)] = s.sense
        if nb > 1 and sim.chance(0.4):
            s.lcons.append(("beq", {0: 1, 1: 1}, "==", 1))
        if sim.chance(0.7):
            s.lcons.append(("mix", {0: 1, n - 1: 1}, sim.pick(["<=", ">="]), sim.pick([2, 1])))
        return s
    if kind in ("slsqp", "cobyla"):
        s = gen.continuous(sim, max_vars=2)
        # convex enough for the local search to stay tame
        free = sim.draw(len(s.vars)) if sim.chance(0.3) else None
        s.vars = [(v[0], "c", max(v[2], -6), min(v[3], 9) if i != free else 1e20) for i, v in enumerate(s.vars)]
        if free is not None:
            s.quad = {k: c for k, c in s.quad.items() if free not in k}
            s.quad[(free, free)] = s.sense * 1.5   # a finite optimum although the variable is unbounded
        return s
    if kind == "gw":
        from props.c08 import maxcut
        return maxcut(sim, 5)
    raise AssertionError(kind)


# ---- foreign solvers that are called as functions ---------------------------------------------------------
class Foreign:
    """Context manager: scipy's local searches, the SDP solver and CPLEX behind the controller of the running call.

    `ctl()` gives the controller of the current call (None: pass through); `atomic` wraps calls that must not be
    preempted (the Fortran routines are not re-entrant)."""

    def __init__(self, ctl, atomic=None, gram=True):
        self.ctl = ctl
        self.atomic = atomic or _null
        self.gram = gram

    def __enter__(self):
        import cplex as _cplex
        outer = self
        r_slsqp, r_cobyla = scipy.optimize.fmin_slsqp, scipy.optimize.fmin_cobyla
        self.sdp_real = cvxpy.Problem.solve
        self.cpx_real = _cplex.Cplex.solve
        self.cpx = _cplex

        def point(x, k):
            if k == "nan-point":
                return np.full(len(x), np.nan)
            if k == "far-point":
                return np.full(len(x), 1.0e5)
            return x

        def slsqp(func, x0, *a, **kw):
            c = outer.ctl()
            k = c.step("local-search", POINT_KINDS) if c else None
            with outer.atomic():
                out = r_slsqp(func, x0, *a, **kw)
            if k is None:
                return out
            if kw.get("full_output"):
                return (point(out[0], k),) + tuple(out[1:])
            return point(out, k)

        def cobyla(func, x0, *a, **kw):
            c = outer.ctl()
            k = c.step("local-search", POINT_KINDS) if c else None
            with outer.atomic():
                out = r_cobyla(func, x0, *a, **kw)
            return point(out, k)

        def sdp(problem, *a, **kw):
            c = outer.ctl()
            k = c.step("sdp", EXC + ["none", "solver-error", "nan"] * 2) if c else None
            var = [v for v in problem.variables() if len(v.shape) == 2]
            if k == "solver-error":
                raise cvxpy.SolverError("simulated")
            if k == "none" or (k == "nan" and len(var) == 1):
                for v in problem.variables():
                    v.save_value(None if k == "none" else np.full(v.shape, np.nan))
                return float("nan")
            if len(var) == 1 and outer.gram:
                n = var[0].shape[0]
                m = np.array([[math.sin(1.3 * (i + 1) * (j + 2)) for j in range(max(2, n - 1))] for i in range(n)])
                m /= np.linalg.norm(m, axis=1)[:, None]
                problem._status = "optimal"
                var[0].save_value(m @ m.T)
                return 0.0
            with outer.atomic():
                return outer.sdp_real(problem, *a, **kw)

        def cpx(cp, *a, **kw):
            c = outer.ctl()
            k = c.step("cplex", EXC + ["cplex-error", "no-solution"] * 2) if c else None
            if k == "cplex-error":
                raise _cplex.exceptions.CplexSolverError("simulated", None, 1217)
            if k == "no-solution":
                return None
            with outer.atomic():
                return outer.cpx_real(cp, *a, **kw)

        self.p = [patch_everywhere(r_slsqp, slsqp, (scipy.optimize,)), patch_everywhere(r_cobyla, cobyla, (scipy.optimize,))]
        for p in self.p:
            p.__enter__()
        cvxpy.Problem.solve = sdp
        _cplex.Cplex.solve = cpx
        return self

    def __exit__(self, *exc):
        for p in self.p:
            p.__exit__(*exc)
        cvxpy.Problem.solve = self.sdp_real
        self.cpx.Cplex.solve = self.cpx_real
        return False


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def result_view(res):
    """What a caller can compare of a result (plain data)."""
    if res is None:
        return None
    def r(v):
        if v is None:
            return None
        v = float(v)
        return round(v, 9) if v == v else "nan"

    out = {"x": None if res.x is None else [r(v) for v in res.x], "fval": r(res.fval), "status": res.status.name,
           "names": list(res.variable_names),
           "samples": sorted((tuple(r(v) for v in s.x) if s.x is not None else (), r(s.fval) or 0.0, r(s.probability), s.status.name)
                             for s in res.samples) if res.x is None or all(v == v for v in res.x) else 'nan'}
    raw = getattr(res, "raw_samples", None)
    if raw is not None:
        out["raw"] = sorted((tuple(r(v) for v in s.x), r(s.fval), r(s.probability)) for s in raw)
    rep = getattr(res, "replacements", None)
    if rep is not None:
        out["replacements"] = sorted((a, b[0], b[1]) for a, b in rep.items())
    return out


def honest(sim, spec, res, who=""):
    """A returned result is successful only if its values are feasible, and its objective is theirs."""
    st = res.status.name
    if res.x is None:
        sim.check(st != "SUCCESS", who + "success-without-values", "status %s with no values" % st)
        return
    sim.check(len(res.x) == len(spec.vars), who + "wrong-length", "")
    x = [float(v) for v in res.x]
    if any(v != v or abs(v) == math.inf for v in x):
        sim.check(st != "SUCCESS", who + "not-a-number-success", lambda: "status %s with x=%r" % (st, x))
        return
    if st == "SUCCESS":
        sim.check(spec.feasible(x, 1e-6), who + "infeasible-success", lambda: "SUCCESS at x=%r, which violates %r" % (x, spec.show()))
    f = spec.f(x)
    sim.check(core.close(res.fval, f), who + "wrong-objective",
              lambda: "reported fval=%r, objective at x=%r is %r; %r" % (res.fval, x, f, spec.show()))


def deep_view(v):
    """deep_view_ without being interrupted or preempted."""
    old = sys.gettrace()
    sys.settrace(None)
    try:
        return deep_view_(v)
    finally:
        sys.settrace(old)


def deep_view_(v, depth=0, seen=()):
    """Everything a caller can reach in a result through public properties, in order, as plain data."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float, complex, np.number)):
        return repr(complex(v))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, [repr(complex(t)) for t in v.ravel()]) if v.dtype != object else ("array", v.shape)
    if depth > 6 or id(v) in seen:
        return "..."
    seen = seen + (id(v),)
    if isinstance(v, dict):
        return [(str(k), deep_view_(t, depth + 1, seen)) for k, t in v.items()]
    if isinstance(v, (list, tuple)):
        return [deep_view_(t, depth + 1, seen) for t in v]
    mod = type(v).__module__ or ""
    if not mod.startswith("qiskit_optimization"):
        return type(v).__name__
    if type(v).__name__ == "QuadraticProgram":
        return gen.snapshot(v)
    if isinstance(v, enum.Enum):
        return v.name
    out = []
    names = sorted({n for c in type(v).__mro__ for n, p in vars(c).items() if isinstance(p, property)} |
                   {n for n in getattr(v, "__dict__", {}) if not n.startswith("_")})
    for n in names:
        if n == "quadratic_program":
            continue
        try:
            t = getattr(v, n)
        except Exception as e:
            t = type(e).__name__
        out.append((n, deep_view_(t, depth + 1, seen)))
    return (type(v).__name__, out)
