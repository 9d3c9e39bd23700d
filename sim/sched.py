"""Scheduling and interruption of the package's code at line granularity.

`Sched` runs several callers as threads of which exactly one is runnable; control changes hands at line events of the
package's own source, after a number of lines drawn by the simulator, to a caller drawn by the simulator.
`interrupted` runs one call and raises at the n-th line event.
"""
import os
import sys
import threading

from . import seams
from .core import Budget


class SimInterrupt(BaseException):
    """The caller was interrupted (as by Ctrl-C) at this instant."""


_ROOT = None


def _root():
    global _ROOT
    if _ROOT is None:
        _ROOT = os.path.join(os.path.realpath(seams.REPO), seams.PKG) + os.sep
    return _ROOT


_is_ours = {}


def ours(code):
    r = _is_ours.get(code)
    if r is None:
        r = _is_ours[code] = os.path.realpath(code.co_filename).startswith(_root())
    return r


def count_lines(fn):
    """Run fn under the tracer; returns (result, number of package line events)."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if ours(frame.f_code) else None

    sys.settrace(glob)
    try:
        out = fn()
    finally:
        sys.settrace(None)
    return out, n[0]


def interrupted(fn, at, exc, on_line=None):
    """Run fn; raise `exc` at package line event number `at`.  Returns (result, where|None)."""
    n = [0]
    where = [None]

    def local(frame, event, arg):
        if event == "line":
            k = n[0]
            n[0] += 1
            if k == at:
                where[0] = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise exc
        return local

    def glob(frame, event, arg):
        return local if ours(frame.f_code) else None

    sys.settrace(glob)
    try:
        return fn(), where[0]
    except BaseException as e:
        if e is exc:
            return None, where[0]
        raise
    finally:
        sys.settrace(None)


class Sched:
    """Deterministic preemptive scheduler for a handful of callers."""

    QUANTA = [40, 1, 3, 10, 150, 600, 4000]

    def __init__(self, sim, on_switch=None, max_switches=4000, shared=None, weight=1):
        """`shared`: a program the callers share; lines of its own methods (and of its expressions, variables and
        constraints) use up the quantum `weight` times as fast, so that control changes hands there more often."""
        self.sim = sim
        self.shared = shared
        self.weight = weight
        self.on_switch = on_switch
        self.locks = []
        self.done = []
        self.results = []
        self.errors = []
        self.main = threading.Lock()
        self.cur = None
        self.left = 0
        self.noswitch = 0
        self.switches = 0
        self.max_switches = max_switches
        self.path = []
        self.fatal = None

    class _Atomic:
        def __init__(self, s):
            self.s = s

        def __enter__(self):
            self.s.noswitch += 1

        def __exit__(self, *exc):
            self.s.noswitch -= 1
            return False

    def atomic(self):
        return Sched._Atomic(self)

    def _hot(self, frame):
        if self.shared is None or self.weight == 1:
            return False
        obj = frame.f_locals.get("self")
        return obj is self.shared or getattr(obj, "_quadratic_program", None) is self.shared

    def _tick(self, frame, cost=1):
        if self.noswitch or self.cur is None:
            return
        self.left -= cost
        if self.left > 0:
            return
        if self.switches >= self.max_switches:
            self.left = 1 << 60
            return
        me = self.cur
        alive = [i for i, d in enumerate(self.done) if not d]
        nxt = self.sim.pick(alive)
        self.left = self.sim.pick(self.QUANTA)
        self.switches += 1
        if self.on_switch is not None:
            self.noswitch += 1
            try:
                self.on_switch()
            finally:
                self.noswitch -= 1
        if nxt != me:
            self.path.append((me, os.path.basename(frame.f_code.co_filename), frame.f_lineno, nxt))
            self.cur = nxt
            self.locks[nxt].release()
            self.locks[me].acquire()

    def _body(self, i, fn):
        def local(frame, event, arg):
            if event == "line":
                self._tick(frame)
            return local

        def hot(frame, event, arg):
            if event == "line":
                self._tick(frame, self.weight)
            return hot

        def glob(frame, event, arg):
            if not ours(frame.f_code):
                return None
            return hot if self._hot(frame) else local

        self.locks[i].acquire()
        sys.settrace(glob)
        try:
            self.results[i] = fn()
        except BaseException as e:  # pylint: disable=broad-except
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            alive = [k for k, d in enumerate(self.done) if not d]
            if alive:
                try:
                    nxt = self.sim.pick(alive)
                except Budget as e:
                    self.fatal = e
                    nxt = alive[0]
                self.cur = nxt
                self.left = 40
                self.locks[nxt].release()
            else:
                self.cur = None
                self.main.release()

    def run(self, fns):
        n = len(fns)
        self.locks = [threading.Lock() for _ in fns]
        self.done = [False] * n
        self.results = [None] * n
        self.errors = [None] * n
        for lk in self.locks:
            lk.acquire()
        self.main.acquire()
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        first = self.sim.draw(n)
        self.cur = first
        self.left = self.sim.pick(self.QUANTA)
        self.locks[first].release()
        self.main.acquire()
        for t in ths:
            t.join()
        if self.fatal is not None:
            raise self.fatal
        return self.results, self.errors
