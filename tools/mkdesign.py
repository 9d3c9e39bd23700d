"""Fills DESIGN.tmpl.md into DESIGN.md (table of planted bugs from seeded/*/meta.json, mutation counts from tools/mutation.txt)."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks |", "|---|---|---|"]
missed = set(open(os.path.join(root, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(root, "tools", "missed.txt")) else set()
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (b, "missed" if b in missed else m["property"], m["what_it_breaks"]))
s = open(os.path.join(root, "DESIGN.tmpl.md")).read()
mut = os.path.join(root, "tools", "mutation.txt")
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@MUT@@", open(mut).read().strip() if os.path.exists(mut) else "")
open(os.path.join(root, "DESIGN.md"), "w").write(s)
