"""Deterministic simulation core.

One `Sim` is one execution.  Every decision of the simulated world (workload, solver outcomes,
faults, interleavings, clock advances, seeds of the ambient generators) is an integer drawn through
`Sim.draw`; the list of drawn integers *is* the execution.  In search mode the integers come from a
PRNG seeded with the run's seed, in replay mode from a recorded list (exhausted list -> 0, the
simplest decision), so that a recorded list replays exactly and can be shrunk.
"""
import hashlib
import random
from collections import Counter


class Violation(Exception):
    """A property does not hold.  `cls` identifies the kind (kept stable while shrinking)."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class SimFault(Exception):
    """An exception injected by the simulator on behalf of a simulated component."""


_MIXED = {}


def sim_fault(sim, msg, safe=False):
    """An injected exception that is also of an ordinary type a real component may raise."""
    names = ["", "RuntimeError", "ValueError", "OSError", "ArithmeticError", "MemoryError"]
    if not safe:
        names += ["TimeoutError", "LookupError", "TypeError", "NotImplementedError"]
    name = names[sim.draw(len(names))]
    if not name:
        return SimFault(msg)
    if name not in _MIXED:
        import builtins
        _MIXED[name] = type("Sim" + name, (SimFault, getattr(builtins, name)), {})
    return _MIXED[name](msg)


class SimHang(BaseException):
    """Raised in a run that exceeded its CPU budget."""


class Budget(BaseException):
    """A simulated component was called more often than any bounded execution may."""


CURRENT = None  # the Sim whose virtual world is installed, if any


class Sim:
    MAX_DRAWS = 200000

    def __init__(self, seed=0, choices=None, keep_trace=False):
        self.seed = seed
        self.rng = random.Random(seed * 2654435761 + 97531) if choices is None else None
        self.choices = choices
        self.pos = 0
        self.rec = []
        self._h = hashlib.sha256()
        self.n_events = 0
        self.trace = [] if keep_trace else None
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.checks = 0
        self.skew = 0.0
        self.broken = None      # first violation; kept even when the code under test swallows the exception
        # virtual time
        self.now = 1.0e9
        self.start = self.now
        self.clock_reads = 0

    # ---- decisions -------------------------------------------------------------------------
    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if len(self.rec) >= self.MAX_DRAWS:
            raise Budget("decision budget")
        if self.choices is None:
            v = self.rng.randrange(n)
        else:
            v = self.choices[self.pos] % n if self.pos < len(self.choices) else 0
            self.pos += 1
        self.rec.append(v)
        return v

    def chance(self, p):
        """True with probability p; the zero decision is False."""
        return self.draw(1000) >= 1000 - int(round(p * 1000))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs = [(weight, value)...]; first pair is the simplest."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def rint(self, lo, hi):
        """Integer in [lo, hi]; the zero decision is the value closest to zero."""
        n = hi - lo + 1
        k = self.draw(n)
        base = min(max(0, lo), hi)
        # enumerate base, base+1, base-1, base+2, ...
        vals = sorted(range(lo, hi + 1), key=lambda v: (abs(v - base), v < base))
        return vals[k] if n <= 4096 else lo + (base - lo + k) % n

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    # ---- recording -------------------------------------------------------------------------
    def ev(self, *parts):
        s = " ".join(p if isinstance(p, str) else repr(p) for p in parts)
        self.n_events += 1
        self._h.update(s.encode("utf8", "replace"))
        self._h.update(b"\n")
        if self.trace is not None:
            self.trace.append("%s" % s)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.ev("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        """Mark an abstract state/interleaving as reached."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.states.add(int.from_bytes(h, "big"))

    def digest(self):
        return self._h.hexdigest()[:24]

    # ---- oracle ----------------------------------------------------------------------------
    def check(self, cond, cls, msg=""):
        self.checks += 1
        if not cond:
            if callable(msg):
                msg = msg()
            self.ev("VIOLATED", cls)
            if self.broken is None:
                self.broken = (cls, msg)
            raise Violation(cls, msg)

    # ---- virtual clock ---------------------------------------------------------------------
    def advance(self, dt):
        self.now += dt

    def jump(self, dt):
        """The wall clock is set by dt (NTP step, operator); the monotonic clocks do not notice."""
        self.skew += dt
        self.fault("clock-jump")

    def read_clock(self, kind="monotonic"):
        self.clock_reads += 1
        if kind in ("process_time", "thread_time"):
            return 1e-6 * self.clock_reads      # CPU clocks stand still while the process waits for a remote component
        return self.now + self.skew if kind == "time" else self.now


def close(a, b, tol=1e-6):
    """Equality up to relative/absolute tolerance; false on NaN."""
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
