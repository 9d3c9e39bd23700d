"""Seams: what the repository takes from the outside world is routed through the simulator.

Installed before the package under test is imported; everything is inert (passes through to the real
thing) unless a Sim is active.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import time
import warnings

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "qiskit_optimization"


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the working-tree source (never a stale .pyc)."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_NoCacheLoader(fullname, init),
                submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, rel + ".py", loader=_NoCacheLoader(fullname, rel + ".py"))
        return None


REAL_TIME = {}


def _install_clock():
    for name in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
        real = getattr(time, name)
        REAL_TIME[name] = real

        def wrapper(_real=real, _kind=name):
            sim = core.CURRENT
            return _real() if sim is None else sim.read_clock(_kind)

        wrapper.__name__ = name
        setattr(time, name, wrapper)
    for name in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns", "thread_time_ns"):
        real = getattr(time, name)
        REAL_TIME[name] = real

        def wrapper_ns(_real=real, _kind=name[:-3]):
            sim = core.CURRENT
            return _real() if sim is None else int(sim.read_clock(_kind) * 1e9)

        wrapper_ns.__name__ = name
        setattr(time, name, wrapper_ns)
    real_sleep = time.sleep
    REAL_TIME["sleep"] = real_sleep

    def sleep(secs):
        sim = core.CURRENT
        if sim is None:
            return real_sleep(secs)
        sim.advance(max(0.0, secs))
        return None

    time.sleep = sleep


_done = False


def install():
    """Install seams and import the package under test from the working tree."""
    global _done
    if _done:
        return
    _done = True
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("QISKIT_PARALLEL", "FALSE")
    os.environ.setdefault("QISKIT_IN_PARALLEL", "TRUE")
    sys.dont_write_bytecode = True
    _install_clock()
    warnings.simplefilter("ignore")
    warnings.showwarning = lambda *a, **k: None
    sys.meta_path.insert(0, _RepoFinder())
    import logging

    logging.disable(logging.CRITICAL)
    import numpy  # noqa: F401
    import qiskit  # noqa: F401
    import qiskit.algorithms  # noqa: F401
    import qiskit_optimization
    import qiskit_optimization.algorithms  # noqa: F401
    import qiskit_optimization.applications  # noqa: F401
    import qiskit_optimization.converters  # noqa: F401
    assert os.path.realpath(qiskit_optimization.__file__).startswith(os.path.realpath(REPO)), \
        qiskit_optimization.__file__
    warnings.simplefilter("ignore")


class World:
    """Context manager: makes `sim` the active world and resets ambient randomness."""

    def __init__(self, sim, ambient_seed=None):
        self.sim = sim
        self.ambient_seed = ambient_seed

    def __enter__(self):
        import numpy as np
        from qiskit.utils import algorithm_globals

        s = self.ambient_seed if self.ambient_seed is not None else self.sim.draw(1 << 16)
        random.seed(s)
        np.random.seed(s)
        algorithm_globals.random_seed = s
        core.CURRENT = self.sim
        return self.sim

    def __exit__(self, *exc):
        core.CURRENT = None
        return False


class patch_everywhere:
    """Context manager replacing a foreign function wherever the package under test (or its home) refers to it."""

    def __init__(self, original, replacement, homes=()):
        self.original = original
        self.replacement = replacement
        self.homes = homes
        self.undo = []

    def __enter__(self):
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == PKG or name.startswith(PKG + ".") or mod in self.homes):
                continue
            for k, v in list(vars(mod).items()):
                if v is self.original:
                    setattr(mod, k, self.replacement)
                    self.undo.append((mod, k))
        return self

    def __exit__(self, *exc):
        for mod, k in self.undo:
            setattr(mod, k, self.original)
        return False
