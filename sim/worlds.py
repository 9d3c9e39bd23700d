"""Simulated solvers and backends: the 'hardware' side of the seams the package already has."""
import math

import numpy as np
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
from qiskit.opflow import DictStateFn, PauliOp, PauliSumOp, StateFn, SummedOp, VectorStateFn

from .core import Budget, sim_fault


def z_terms(op):
    """Diagonal operator -> list of (coefficient, qubit index list); independent of to_matrix()."""
    if isinstance(op, PauliSumOp):
        out = []
        for p in op.primitive.to_list():
            label, c = p
            if set(label) - set("IZ"):
                raise AssertionError("non-diagonal term " + label)
            out.append((complex(c) * complex(op.coeff),
                        [k for k, ch in enumerate(reversed(label)) if ch == "Z"]))
        return out
    if isinstance(op, PauliOp):
        label = op.primitive.to_label()
        return [(complex(op.coeff), [k for k, ch in enumerate(reversed(label)) if ch == "Z"])]
    if isinstance(op, SummedOp):
        out = []
        for o in op.oplist:
            out += [(c * complex(op.coeff), q) for c, q in z_terms(o)]
        return out
    # TensoredOp of identities and the like
    m = np.real(np.diag(op.to_matrix()))
    n = int(math.log2(len(m)))
    return [("table", (n, m))]


def energy(terms, bits):
    """Energy of a basis state; bits[q] is the value of qubit q."""
    e = 0.0
    for c, qs in terms:
        if c == "table":
            n, m = qs
            e += m[sum(bits[q] << q for q in range(n))]
            continue
        s = 1.0
        for q in qs:
            if bits[q]:
                s = -s
        e += c.real * s
    return e


def bits_of(k, n):
    return tuple((k >> q) & 1 for q in range(n))


def make_eigenstate(sim, fmt, dist, n):
    """dist: {bits tuple: probability}.  Returns the eigenstate object in the given format, in the
    conventions of the solver library: qubit 0 is the rightmost character / least significant bit;
    dictionaries hold amplitudes (square roots of the measured frequencies)."""
    def key(b):
        return "".join(str(v) for v in reversed(b))

    if fmt == "dict":
        return {key(b): math.sqrt(p) for b, p in dist.items()}
    if fmt == "dictfn":
        return DictStateFn({key(b): math.sqrt(p) for b, p in dist.items()})
    vec = np.zeros(2 ** n, dtype=complex)
    for b, p in dist.items():
        ph = sim.draw(16)
        vec[sum(v << q for q, v in enumerate(b))] = math.sqrt(p) * complex(math.cos(math.pi * ph / 8), math.sin(math.pi * ph / 8))
    if fmt == "vector":
        return vec
    if fmt == "statefn":
        return VectorStateFn(vec)
    if fmt == "realvector":
        return np.abs(vec)
    raise AssertionError(fmt)


FORMATS = ["vector", "dict", "dictfn", "statefn", "realvector"]


def random_dist(sim, n, shots=None, ground=None, noise=0.3, tail=False):
    """A measured distribution over n qubits: shots around `ground` states with readout noise."""
    shots = shots or sim.pick([8, 1, 2, 100, 1024])
    k = 1 + sim.draw(min(6, 2 ** n))
    picks = []
    for _ in range(k):
        if ground and not sim.chance(noise):
            b = list(sim.pick(ground))
        else:
            b = [sim.draw(2) for _ in range(n)]
        if sim.chance(0.2):
            q = sim.draw(n)
            b[q] ^= 1
        picks.append(tuple(b))
    counts = {}
    left = max(shots, 1)
    for i, b in enumerate(picks):
        if left <= 0:
            break
        c = left if i == len(picks) - 1 else 1 + sim.draw(max(1, left // 2))
        c = min(c, left)
        counts[b] = counts.get(b, 0) + c
        left -= c
    tot = sum(counts.values())
    return {b: c / tot for b, c in counts.items()}


class SimEigensolver(MinimumEigensolver):
    """A minimum eigensolver whose every answer is decided by the simulator."""

    def __init__(self, sim, plan=None, fmts=None, max_calls=200):
        self.sim = sim
        self.plan = plan            # callable(call index) -> behaviour, or None for 'noisy'
        self.fmts = fmts or FORMATS
        self.calls = 0
        self.max_calls = max_calls
        self.log = []               # (terms, n, behaviour, dist)

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        sim = self.sim
        i = self.calls
        self.calls += 1
        if i >= self.max_calls:
            raise Budget("eigensolver called %d times" % i)
        how = self.plan(i) if self.plan else "noisy"
        n = operator.num_qubits
        terms = z_terms(operator)
        sim.ev("eigensolve", i, how, n)
        res = MinimumEigensolverResult()
        if how == "raise":
            sim.fault("eigensolver-exception")
            self.log.append((terms, n, how, None))
            raise sim_fault(sim, "eigensolver job failed")
        if how == "none":
            sim.fault("eigensolver-no-state")
            self.log.append((terms, n, how, None))
            res.eigenvalue = complex(0)
            return res
        es = None
        if how in ("exact", "exact-all", "noisy"):
            es = [(energy(terms, bits_of(k, n)), bits_of(k, n)) for k in range(2 ** n)]
            emin = min(e for e, _ in es)
            ground = [b for e, b in es if e <= emin + 1e-9]
        if how == "exact":
            dist = {sim.pick(ground): 1.0}
        elif how == "exact-all":
            dist = {b: 1.0 / len(ground) for b in ground}
        elif how == "noisy":
            dist = random_dist(sim, n, ground=ground)
            sim.fault("readout-noise")
        elif how == "uniform":
            dist = {bits_of(k, n): 1.0 / 2 ** n for k in range(2 ** n)}
            sim.fault("fully-depolarised")
        elif how == "single-shot":
            dist = {tuple(sim.draw(2) for _ in range(n)): 1.0}
            sim.fault("single-shot")
        else:
            dist = random_dist(sim, n)
            sim.fault("garbage-state")
        if how != "exact" and sim.chance(0.15) and len(dist) < 2 ** n:
            # leakage far below any reporting threshold
            free = [bits_of(k, n) for k in range(2 ** n) if bits_of(k, n) not in dist]
            b = sim.pick(free)
            dist = {k: v * (1 - 1e-12) for k, v in dist.items()}
            dist[b] = 1e-12
            sim.fault("sub-threshold-leakage")
        fmt = sim.pick(self.fmts)
        sim.ev("state", fmt, sorted(dist.items()))
        self.log.append((terms, n, how, dist))
        res.eigenstate = make_eigenstate(sim, fmt, dist, n)
        res.eigenvalue = complex(sum(p * energy(terms, b) for b, p in dist.items()))
        res.aux_operator_eigenvalues = None
        return res


# ---- a simulated quantum backend that executes the real circuits ------------------------------------
class _RunConfig:
    def __init__(self, shots):
        self.shots = shots


class _ExecResult:
    def __init__(self, statevector=None, counts=None):
        self._sv = statevector
        self._counts = counts

    def get_statevector(self, *_a, **_k):
        return self._sv

    def get_counts(self, *_a, **_k):
        return dict(self._counts)


_ID_CACHE = {}


class SimQuantumInstance:
    """Duck-typed QuantumInstance: exact execution of each circuit, then simulated shots and faults."""

    def __init__(self, sim, statevector, shots, plan=None, max_calls=400):
        self.sim = sim
        self.is_statevector = statevector
        self.run_config = _RunConfig(shots)
        self.plan = plan            # callable(call index) -> 'ok'|'flip'|'random'|'raise'
        self.calls = 0
        self.max_calls = max_calls
        self.log = []               # per call: (mode, {outcome bits tuple by qubit: probability})
        self.backend = None

    @property
    def shots(self):
        return self.run_config.shots

    def set_config(self, **_kwargs):
        pass

    def execute(self, circuits, had_transpiled=False):
        from qiskit.quantum_info import Statevector

        sim = self.sim
        i = self.calls
        self.calls += 1
        if i >= self.max_calls:
            raise Budget("backend executed %d circuits" % i)
        qc = circuits[0] if isinstance(circuits, (list, tuple)) else circuits
        how = self.plan(i) if self.plan else "ok"
        sim.ev("execute", i, how)
        sim.advance(0.5 + sim.draw(4))
        if how == "raise":
            sim.fault("backend-exception")
            self.log.append((how, None))
            raise sim_fault(sim, "backend job failed")
        bare = qc.copy()
        bare.data = [d for d in qc.data if d[0].name not in ("measure", "barrier")]
        meas = {}
        for inst, qargs, cargs in qc.data:
            if inst.name == "measure":
                meas[qc.clbits.index(cargs[0])] = qc.qubits.index(qargs[0])
        sv = Statevector.from_instruction(bare).data
        n = int(round(math.log2(len(sv))))
        if self.is_statevector:
            if how != "ok":
                # a wrong but valid state
                sim.fault("corrupted-state")
                mask = sim.draw(1 << n) if how == "random" else 1 << sim.draw(n)
                sv = sv[np.arange(len(sv)) ^ mask]
            p = np.abs(sv) ** 2
            self.log.append((how, {bits_of(k, n): float(p[k]) for k in range(len(p)) if p[k] > 1e-12}))
            return _ExecResult(statevector=sv)
        p = np.abs(sv) ** 2
        p = p / p.sum()
        rng = np.random.RandomState(sim.draw(1 << 30))
        outs = rng.choice(len(p), size=self.run_config.shots, p=p)
        counts = {}
        seen = {}
        m = max(meas) + 1 if meas else n
        for k in outs:
            b = list(bits_of(int(k), n))
            if how == "flip":
                q = rng.randint(n)
                b[q] ^= 1
            elif how == "random":
                b = [int(v) for v in rng.randint(0, 2, n)]
            c = [b[meas[j]] if j in meas else 0 for j in range(m)] if meas else b
            key = "".join(str(v) for v in reversed(c))
            counts[key] = counts.get(key, 0) + 1
            seen[tuple(b)] = seen.get(tuple(b), 0) + 1
        if how in ("empty", "lost"):
            # shots that never arrive
            drop = [b for b in sorted(seen) if how == "empty" or sim.chance(0.5)]
            for b in drop:
                key = "".join(str(v) for v in reversed([b[meas[j]] if j in meas else 0 for j in range(m)] if meas else b))
                counts[key] -= seen.pop(b)
                if not counts[key]:
                    del counts[key]
        if how != "ok":
            sim.fault("readout-" + how)
        total = sum(seen.values())
        self.log.append((how, {b: c / total for b, c in seen.items()}))
        return _ExecResult(counts=counts)


# ---- simulated optimizers ---------------------------------------------------------------------------
def sim_optimizer_class():
    from qiskit_optimization.algorithms import OptimizationAlgorithm

    class SimOptimizer(OptimizationAlgorithm):
        """Records every program that crosses the seam; `answer(problem, spec, i)` makes the reply."""

        def __init__(self, sim, answer, name="opt", max_calls=300):
            self.sim = sim
            self.answer = answer
            self.name = name
            self.calls = 0
            self.max_calls = max_calls
            self.specs = []
            self.results = []

        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            from .gen import spec_of

            i = self.calls
            self.calls += 1
            if i >= self.max_calls:
                raise Budget("%s called %d times" % (self.name, i))
            spec = spec_of(problem)
            self.specs.append(spec)
            self.sim.ev("call", self.name, i, len(spec.vars))
            res = self.answer(problem, spec, i)
            self.results.append(res)
            return res

    return SimOptimizer


def make_result(problem, x, samples=None, status=None, fval=None):
    """An OptimizationResult as an honest third-party optimizer would build it."""
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus

    if status is None:
        status = OptimizationResultStatus.SUCCESS
    x = None if x is None else np.array(x, dtype=float)
    if fval is None and x is not None:
        fval = problem.objective.evaluate(x)
    return OptimizationResult(x=x, fval=fval, variables=problem.variables, status=status, samples=samples)


def make_samples(problem, dist):
    from qiskit_optimization.algorithms import OptimizationResultStatus, SolutionSample

    sense = problem.objective.sense.value
    ss = [SolutionSample(np.array(b, dtype=float), problem.objective.evaluate(np.array(b, dtype=float)), p,
                         OptimizationResultStatus.SUCCESS) for b, p in dist.items()]
    ss.sort(key=lambda s: sense * s.fval)
    return ss


def user_converters():
    """Converters a user of the package may write: one reverses the order of the variables, one turns the sense round."""
    from qiskit_optimization.converters import QuadraticProgramConverter

    from . import gen

    class Reverse(QuadraticProgramConverter):
        def convert(self, problem):
            s = gen.spec_of(problem)
            n = len(s.vars)
            t = gen.Spec()
            t.name, t.sense, t.const = s.name, s.sense, s.const
            t.vars = s.vars[::-1]
            t.lin = {n - 1 - i: c for i, c in s.lin.items()}
            q = lambda d: {tuple(sorted((n - 1 - i, n - 1 - j))): c for (i, j), c in d.items()}
            t.quad = q(s.quad)
            t.lcons = [(a, {n - 1 - i: c for i, c in lin.items()}, o, r) for a, lin, o, r in s.lcons]
            t.qcons = [(a, {n - 1 - i: c for i, c in lin.items()}, q(d), o, r) for a, lin, d, o, r in s.qcons]
            return t.build()

        def interpret(self, x):
            import numpy as np
            return np.asarray(x)[::-1]

    class Flip(QuadraticProgramConverter):
        def convert(self, problem):
            t = gen.spec_of(problem)
            t.sense, t.const = -t.sense, -t.const
            t.lin = {i: -c for i, c in t.lin.items()}
            t.quad = {k: -c for k, c in t.quad.items()}
            return t.build()

        def interpret(self, x):
            return x

    return Reverse, Flip
