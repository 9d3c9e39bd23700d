"""Seeded search over simulated executions, shrinking, replay and evidence."""
import argparse
import gc
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import core, seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replay")
_real_time = time.time  # real clock, bound before the seams are installed
_real_sleep = time.sleep


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------------------
def _on_prof(signum, frame):
    raise core.SimHang("CPU budget of one simulated run exhausted")


def _in_repo(tb):
    root = os.path.realpath(os.path.join(seams.REPO, seams.PKG))
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def one_run(mod, sim):
    """Execute one simulated run; returns None or (class, message)."""
    limit = getattr(mod, "CPU_LIMIT", 60)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, limit)
    out = None
    try:
        with seams.World(sim):
            mod.run(sim)
    except core.Violation as v:
        out = (v.cls, v.msg)
    except (core.SimHang, core.Budget) as e:
        out = ("no-termination", "run did not terminate within its budget (%s)" % e)
    except BaseException as e:  # pylint: disable=broad-except
        signal.setitimer(signal.ITIMER_PROF, 0)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if _in_repo(e.__traceback__) and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            out = ("unexpected-exception", txt)
        else:
            out = ("HARNESS", txt)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        core.CURRENT = None
        sys.settrace(None)
    if sim.broken is not None and (out is None or out[0] == "unexpected-exception"):
        out = sim.broken
    return out


def _child_batch(mod, seeds, trace_first):
    agg = {"runs": 0, "faults": Counter(), "probes": Counter(), "states": set(), "digests": [],
           "nontrivial": 0, "sim_time": 0.0, "events": 0, "draws": 0, "checks": 0,
           "violations": [], "samples": [], "clock_reads": 0}
    recs = []
    for k, seed in enumerate(seeds):
        sim = core.Sim(seed, keep_trace=(trace_first and k == 0))
        v = one_run(mod, sim)
        agg["runs"] += 1
        agg["faults"] += sim.faults
        agg["probes"] += sim.probes
        agg["states"] |= sim.states
        agg["digests"].append((seed, sim.digest(), bool(sim.probes.get("nontrivial"))))
        agg["sim_time"] += sim.now - sim.start
        agg["events"] += sim.n_events
        agg["draws"] += len(sim.rec)
        agg["checks"] += sim.checks
        agg["clock_reads"] += sim.clock_reads
        recs.append(sim.rec)
        if trace_first and k == 0:
            agg["samples"].append({"seed": seed, "decisions": len(sim.rec),
                                   "events": [t[:300] for t in sim.trace[:40]]})
        if v is not None:
            agg["violations"].append({"seed": seed, "class": v[0], "msg": v[1], "choices": sim.rec,
                                      "prefix": [list(r) for r in recs[:-1]], "digest": sim.digest()})
            break  # the process state is suspect from here on
    return agg


def _fork(fn, path):
    """Run fn() in a forked child; its pickled result goes to `path`."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        gc.freeze()
        res = fn()
        with open(path + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(path + ".tmp", path)
        code = 0
    except BaseException:  # pylint: disable=broad-except
        try:
            with open(path + ".err", "w") as f:
                f.write(traceback.format_exc())
        except OSError:
            pass
    finally:
        os._exit(code)


def _load(path):
    with open(path, "rb") as f:
        return pickle.load(f)


class Pool:
    def __init__(self, workers, scratch):
        self.workers = workers
        self.scratch = scratch
        self.live = {}
        self.n = 0

    def submit(self, fn, tag, wall):
        self.n += 1
        path = os.path.join(self.scratch, "r%d" % self.n)
        pid = _fork(fn, path)
        self.live[pid] = (path, tag, _real_time() + wall)

    def reap(self, block=True):
        """Returns (tag, result|None, error) of one finished child, or None."""
        while True:
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                return None
            if pid in self.live:
                path, tag, _ = self.live.pop(pid)
                if os.path.exists(path):
                    res = _load(path)
                    os.unlink(path)
                    return tag, res, None
                err = ""
                if os.path.exists(path + ".err"):
                    err = open(path + ".err").read()
                return tag, None, err or "child died"
            now = _real_time()
            for p, (path, tag, dl) in list(self.live.items()):
                if now > dl:
                    try:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                    except OSError:
                        pass
                    del self.live[p]
                    return tag, None, "wall"
            if not block:
                return None
            _real_sleep(0.002)

    def kill(self):
        for p in list(self.live):
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        self.live.clear()


# ------------------------------------------------------------------------------------------------
def replay_in_child(mod, prefix, choices, scratch, wall=400, keep_trace=False):
    """Run prefix executions then `choices` in a fresh child; returns (viol, digest, rec, trace)."""

    def fn():
        for c in prefix:
            one_run(mod, core.Sim(0, choices=c))
        sim = core.Sim(0, choices=choices, keep_trace=keep_trace)
        v = one_run(mod, sim)
        return v, sim.digest(), sim.rec, (sim.trace or [])[:400], dict(sim.faults)

    path = os.path.join(scratch, "rp%d" % int(_real_time() * 1e6))
    pid = _fork(fn, path)
    dl = _real_time() + wall
    while True:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if _real_time() > dl:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return ("no-termination", "killed"), "killed", choices, [], {}
        _real_sleep(0.001)
    if not os.path.exists(path):
        err = open(path + ".err").read() if os.path.exists(path + ".err") else "child died"
        return ("HARNESS", err), "", choices, [], {}
    res = _load(path)
    os.unlink(path)
    return res


def shrink(mod, prefix, choices, cls, scratch, max_attempts=250, max_wall=60):
    t0 = _real_time()
    best = list(choices)
    attempts = 0
    slow = False

    def ok(cand):
        nonlocal attempts, slow
        attempts += 1
        t1 = _real_time()
        v, _, rec, _, _ = replay_in_child(mod, prefix, cand, scratch, wall=120)
        if _real_time() - t1 > 20:
            slow = True
        if v is not None and v[0] == cls and len(rec) <= len(best):
            r = list(rec)
            while r and r[-1] == 0:
                r.pop()
            return r
        return None

    def budget():
        return attempts < max_attempts and _real_time() - t0 < max_wall and not slow

    # 1. drop whole prefix runs, if any
    i = 0
    while prefix and i < len(prefix) and budget():
        cand = prefix[:i] + prefix[i + 1:]
        v, _, _, _, _ = replay_in_child(mod, cand, best, scratch, wall=120)
        attempts += 1
        if v is not None and v[0] == cls:
            prefix = cand
        else:
            i += 1
    while best and best[-1] == 0:
        best.pop()
    # 2. truncate
    n = len(best)
    k = n // 2
    while k >= 1 and budget():
        if len(best) - k >= 0:
            r = ok(best[:len(best) - k])
            if r is not None:
                best = r
                continue
        k //= 2
    # 3. delete and zero spans
    size = max(1, len(best) // 4)
    while size >= 1 and budget():
        i = 0
        changed = False
        while i < len(best) and budget():
            r = ok(best[:i] + best[i + size:])
            if r is not None and len(r) < len(best):
                best = r
                changed = True
                continue
            if any(best[i:i + size]):
                cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                r = ok(cand)
                if r is not None:
                    best = r
                    changed = True
            i += size
        if size == 1 and not changed:
            break
        size = size // 2 if size > 1 else (1 if changed else 0)
    # 4. lower single values
    for i in range(len(best)):
        if not budget():
            break
        if i < len(best) and best[i] > 1:
            for val in (1, best[i] // 2):
                if i >= len(best):
                    break
                cand = list(best)
                cand[i] = val
                r = ok(cand)
                if r is not None:
                    best = r
                    break
    return prefix, best, attempts


# ------------------------------------------------------------------------------------------------
def load_known():
    """Known (unrepaired) findings: lines `finding: property=<id> class=<cls> <what>`."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = dict(p.split("=", 1) for p in line.split() if "=" in p)
                out.append((f.get("property"), f.get("class"), line[len("finding:"):].strip()))
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(path + ".tmp", path)


def process_violation(mod, pid, viol, scratch, verif_seed):
    """Confirm in a fresh process, shrink, write the replay file. Returns (path, class, msg, info)."""
    cls = viol["class"]
    prefix = []
    choices = viol["choices"]
    v, dig, rec, tr, fl = replay_in_child(mod, [], choices, scratch)
    confirmed = v is not None and v[0] == cls
    if not confirmed and viol["prefix"]:
        for _ in range(3):
            v, dig, rec, tr, fl = replay_in_child(mod, viol["prefix"], choices, scratch)
            if v is not None and v[0] == cls:
                confirmed = True
                prefix = viol["prefix"]
                break
    attempts = 0
    if confirmed:
        n0 = len(choices)
        prefix, choices, attempts = shrink(mod, prefix, choices, cls, scratch)
        v2, dig2, rec2, tr2, fl2 = replay_in_child(mod, prefix, choices, scratch, keep_trace=True)
        if v2 is not None and v2[0] == cls:
            v, dig, rec, tr, fl = v2, dig2, rec2, tr2, fl2
        else:  # should not happen; keep the unshrunk one
            choices = viol["choices"]
            prefix = prefix or []
        info = {"decisions_original": n0, "decisions_minimised": len(choices), "shrink_attempts": attempts}
    else:
        v, dig, tr, fl = (cls, viol["msg"]), viol["digest"], [], {}
        info = {"decisions_original": len(choices), "unconfirmed": True}
    path = os.path.join(REPLAYS, "%s-seed%d.json" % (pid, viol["seed"]))
    write_json(path, {
        "property": pid, "seed": viol["seed"], "verif_seed": verif_seed, "class": v[0], "message": v[1],
        "digest": dig, "prefix": prefix, "choices": choices, "faults": fl, "trace": tr,
        "info": info, "confirmed": confirmed,
        "replay_command": "cd %s && ./check --replay %s" % (VERIF, path)})
    return path, v[0], v[1], confirmed


def check(pid, tier, verif_seed, runs=None, workers=None, quiet=False):
    t0 = _real_time()
    seams.install()
    mod = importlib.import_module("props." + pid.lower())
    t_import = _real_time() - t0
    n = runs or mod.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    # the parent must be single-threaded and warmed up before forking
    if hasattr(mod, "warmup"):
        mod.warmup()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    wall_cap = float(os.environ.get("VERIF_WALL", "600" if tier == "quick" else "14400"))
    try:
        return _check(mod, pid, tier, verif_seed, n, workers, scratch, t0, t_import, wall_cap, quiet)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(mod, pid, tier, verif_seed, n, workers, scratch, t0, t_import, wall_cap, quiet):
    batch = getattr(mod, "BATCH", 20)
    base = verif_seed * 1000003
    seeds = [base + i for i in range(n)]
    batches = [seeds[i:i + batch] for i in range(0, n, batch)]
    wall = max(240, getattr(mod, "CPU_LIMIT", 60) * 3)
    pool = Pool(workers, scratch)
    agg = {"runs": 0, "faults": Counter(), "probes": Counter(), "states": set(), "digests": [],
           "sim_time": 0.0, "events": 0, "draws": 0, "checks": 0, "violations": [], "samples": [],
           "clock_reads": 0}
    harness = []
    truncated = False
    i = 0
    recheck = []  # determinism: a few seeds again, in another process and another batch layout
    n_re = min(n, 16 if tier == "quick" else 64)
    re_seeds = seeds[::max(1, n // n_re)][:n_re]
    re_batches = [re_seeds[k::2] for k in range(2)] if n_re > 1 else []
    jobs = [("main", b) for b in batches] + [("re", b) for b in re_batches if b]
    stop = False
    while i < len(jobs) or pool.live:
        while not stop and i < len(jobs) and len(pool.live) < workers:
            if _real_time() - t0 > wall_cap:
                truncated = True
                stop = True
                break
            kind, b = jobs[i]
            pool.submit(lambda b=b, i=i: _child_batch(mod, b, i < 2), (kind, b), wall)
            i += 1
        if stop and not pool.live:
            break
        r = pool.reap()
        if r is None:
            if stop or i >= len(jobs):
                break
            continue
        (kind, b), res, err = r
        if res is None:
            if err == "wall":
                # a child stuck outside Python: find the run that does it
                stop = True
                agg["violations"].append({"seed": b[0], "class": "no-termination",
                                          "msg": "a run of this batch did not return", "choices": [],
                                          "prefix": [], "digest": "", "wall_batch": b})
            else:
                harness.append(err)
                stop = True
            continue
        for vv in res["violations"]:
            if vv["class"] == "HARNESS":
                harness.append(vv["msg"])
                stop = True
        if kind == "re":
            recheck.extend(res["digests"])
            continue
        for k in ("runs", "sim_time", "events", "draws", "checks", "clock_reads"):
            agg[k] += res[k]
        for k in ("faults", "probes"):
            agg[k] += res[k]
        agg["states"] |= res["states"]
        agg["digests"].extend(res["digests"])
        agg["samples"].extend(res["samples"])
        vs = [v for v in res["violations"] if v["class"] != "HARNESS"]
        if vs:
            agg["violations"].extend(vs)
            stop = True
    pool.kill()
    search_wall = _real_time() - t0 - t_import

    if harness and not agg["violations"]:
        sys.stderr.write("HARNESS ERROR in %s:\n%s\n" % (pid, harness[0]))
        return 2

    extra_cov = {}
    if hasattr(mod, "extra") and not agg["violations"]:
        # cross-process part of a property (fresh interpreters)
        ctx = {"tier": tier, "seed": verif_seed, "scratch": scratch, "workers": workers}
        res = mod.extra(ctx)
        extra_cov = res.get("coverage", {})
        agg["faults"] += Counter(res.get("faults", {}))
        agg["runs"] += res.get("runs", 0)
        agg["digests"].extend(res.get("digests", []))
        for cls, msg, payload in res.get("violations", []):
            path = os.path.join(REPLAYS, "%s-%s.json" % (pid, cls))
            write_json(path, {"property": pid, "class": cls, "message": msg, "extra": payload,
                              "replay_command": "cd %s && ./check --replay %s" % (VERIF, path)})
            agg["violations"].append({"ready": path, "class": cls, "msg": msg, "seed": 0})

    known = load_known()
    reported = []
    known_hit = []
    seen_cls = Counter(v["class"] for v in agg["violations"])
    done_cls = set()
    unconfirmed = []
    for v in sorted(agg["violations"], key=lambda v: v["seed"]):
        if v["class"] in done_cls:
            continue
        k = [x for x in known if x[0] == pid and x[1] == v["class"]]
        if k:
            known_hit.append(k[0][2])
            done_cls.add(v["class"])
            continue
        if "ready" in v:
            reported.append((v["ready"], v["class"], v["msg"]))
            done_cls.add(v["class"])
            continue
        if "wall_batch" in v:
            hit = _bisect_wall(mod, v["wall_batch"], scratch, wall)
            if hit is None:
                unconfirmed.append(v["class"])
                continue
            v.update(hit)
        path, cls, msg, confirmed = process_violation(mod, pid, v, scratch, verif_seed)
        if confirmed or seen_cls[v["class"]] >= 2:
            reported.append((path, cls, msg))
            done_cls.add(v["class"])
        else:
            unconfirmed.append(v["class"])
        if reported:
            break
    # known findings are re-demonstrated on every run by the scenario's own probes
    for p, cls, what in known:
        if p == pid and what not in known_hit and hasattr(mod, "known_probe"):
            if mod.known_probe(cls):
                known_hit.append(what)

    first = {s: d for s, d, _ in agg["digests"]}
    mism = sum(1 for s, d, _ in recheck if s in first and first[s] != d)
    wall_s = _real_time() - t0
    distinct = len({d for _, d, nt in agg["digests"] if nt})
    cov = {
        "evaluations": agg["runs"], "distinct_nontrivial": distinct, "rule": mod.RULE,
        "samples": agg["samples"][:3] or [{"note": "no sample"}],
        "seeds": "%d..%d" % (base, base + n - 1), "planned_runs": n, "truncated_by_wall_cap": truncated,
        "runs_per_hour": round(agg["runs"] / max(search_wall, 1e-3) * 3600),
        "simulated_seconds": round(agg["sim_time"], 3), "simulated_clock_reads": agg["clock_reads"],
        "decisions_drawn": agg["draws"], "events_recorded": agg["events"],
        "oracle_checks": agg["checks"], "faults_injected": dict(sorted(agg["faults"].items())),
        "reach_probes": dict(sorted(agg["probes"].items())),
        "distinct_states": len(agg["states"]), "state_measure": getattr(mod, "STATE_MEASURE", "abstract state hash"),
        "components_real": mod.REAL, "components_stub": mod.STUB,
        "determinism_rechecked_runs": len(recheck), "determinism_mismatches": mism,
        "workers": workers, "unconfirmed": unconfirmed, "known_findings": known_hit,
    }
    cov.update(extra_cov)
    write_json(os.path.join(VERIF, "evidence", pid + ".json"), {
        "property": pid, "tier": tier, "seed": verif_seed, "level": "exploration", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall_s, 2),
        "violations": len(reported)})
    for w in known_hit:
        print("KNOWN-FINDING: %s" % w)
    for path, cls, msg in reported:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  class=%s" % cls)
        print("  " + (msg or "").replace("\n", "\n  ")[:3000])
    if not quiet:
        print("%s tier=%s runs=%d distinct=%d states=%d faults=%d wall=%.1fs%s%s" % (
            pid, tier, agg["runs"], distinct, len(agg["states"]), sum(agg["faults"].values()), wall_s,
            " mismatches=%d" % mism if mism else "", " unconfirmed=%s" % unconfirmed if unconfirmed else ""))
    return 1 if reported else 0


def _bisect_wall(mod, seeds, scratch, wall):
    for s in seeds:
        sim_choices = []

        def fn(s=s):
            sim = core.Sim(s)
            # decisions are streamed to disk so that a stuck run still leaves its schedule
            path = os.path.join(scratch, "stream")
            f = open(path, "w", buffering=1)
            orig = sim.draw

            def draw(n):
                v = orig(n)
                if n > 1:
                    f.write("%d\n" % v)
                return v

            sim.draw = draw
            return one_run(mod, sim)

        pool = Pool(1, scratch)
        pool.submit(fn, None, wall)
        _, res, err = pool.reap()
        if err == "wall":
            path = os.path.join(scratch, "stream")
            if os.path.exists(path):
                sim_choices = [int(x) for x in open(path).read().split()]
            return {"seed": s, "choices": sim_choices, "prefix": []}
    return None


def replay(path):
    obj = json.load(open(path))
    seams.install()
    mod = importlib.import_module("props." + obj["property"].lower())
    if "extra" in obj:
        return mod.replay_extra(obj)
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        v, dig, _, tr, _ = replay_in_child(mod, obj["prefix"], obj["choices"], scratch, keep_trace=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for t in tr:
        print("  | " + t[:400])
    if v is None:
        print("replay: no violation")
        return 0
    if v[0] == "HARNESS":
        print("replay: harness error\n%s" % v[1])
        return 2
    print("replay: class=%s digest=%s (recorded class=%s digest=%s) exact=%s" % (
        v[0], dig, obj["class"], obj["digest"], v[0] == obj["class"] and dig == obj["digest"]))
    print(v[1])
    print("VIOLATION property=%s replay=%s" % (obj["property"], path))
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int, help="print digests of the first N runs (determinism tool)")
    ap.add_argument("--one", type=int, help="run one seed in-process, print its trace")
    ap.add_argument("--selftest", action="store_true", help="import the package under test through the seams")
    a = ap.parse_args(argv)
    if a.selftest:
        seams.install()
        print("ok")
        return 0
    if a.replay:
        return replay(a.replay)
    pid = a.property.upper()
    if a.one is not None:
        seams.install()
        mod = importlib.import_module("props." + pid.lower())
        sim = core.Sim(a.one, keep_trace=True)
        v = one_run(mod, sim)
        print("\n".join(sim.trace))
        print(sim.faults, sim.probes, len(sim.rec), sim.digest())
        print(v[0] + "\n" + v[1] if v else "ok")
        return 0
    if a.digests:
        seams.install()
        mod = importlib.import_module("props." + pid.lower())
        for i in range(a.digests):
            sim = core.Sim(a.seed * 1000003 + i)
            v = one_run(mod, sim)
            print(i, sim.digest(), v[0] if v else "-")
        return 0
    return check(pid, a.tier, a.seed, a.runs, a.workers)
