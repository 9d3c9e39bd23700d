#!/usr/bin/env python3
"""Mutation trial of the checks (development tool, not part of any check).

  mutate.py list OUT.json             every single-site mutant of the package
  mutate.py filter IN.json OUT.json N first N (shuffled) mutants that pass the repository's tests
  mutate.py judge IN.json OUT.json    runs the checks mapped to the mutant's file; prints survivors

Works on scratch copies only (VERIF_REPO).
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

PKG = "/repo/qiskit_optimization"
PY = "/opt/venv/bin/python"
VERIF = os.environ.get("MUT_VERIF", "/verif")

MAP = {
    "algorithms/minimum_eigen_optimizer.py": "C01 C02 C09 C11",
    "algorithms/optimization_algorithm.py": "C01 C02 C16 C07 C09",
    "algorithms/grover_optimizer.py": "C03 C02 C09 C11 C12",
    "algorithms/recursive_minimum_eigen_optimizer.py": "C04 C09 C11",
    "algorithms/admm_optimizer.py": "C05 C09 C10 C11",
    "algorithms/multistart_optimizer.py": "C06 C12",
    "algorithms/cobyla_optimizer.py": "C06 C09 C11",
    "algorithms/slsqp_optimizer.py": "C06 C09 C11",
    "algorithms/cplex_optimizer.py": "C09 C11",
    "algorithms/warm_start_qaoa_optimizer.py": "C07 C09 C11",
    "algorithms/goemans_williamson_optimizer.py": "C08 C09 C12",
    "converters/": "C01 C11 C10 C02",
    "problems/": "C13 C14 C01 C16 C10",
    "applications/": "C16 C15 C12 C10",
}


def props_for(rel):
    for k, v in MAP.items():
        if rel.startswith(k):
            return v.split()
    return ["C13"]


def sites(rel):
    src = open(os.path.join(PKG, rel)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what):
        a, b = pos(n)
        out.append({"file": rel, "line": n.lineno, "a": a, "b": b, "old": raw[a:b].decode(), "new": new, "what": what})

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, (ast.Constant, ast.Str)):
            skip.add(n.body[0])
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings"):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ("draw", "_draw", "__repr__"):
                for m in ast.walk(n):
                    skip.add(m)
            for m in ast.walk(n.args):
                skip.add(m)
            if n.returns:
                for m in ast.walk(n.returns):
                    skip.add(m)
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(m)
    seg = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
           ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
            flip = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}.get(type(n.ops[0]))
            if flip:
                add(n, "(%s %s %s)" % (seg(n.left), flip, seg(n.comparators[0])), "cmpflip")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % op.join("(%s)" % seg(v) for v in n.values), "bool")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                add(n, "(%s)" % ((" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in rest)), "booldrop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(%s)" % seg(n.operand), "neg")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            add(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ("copy.deepcopy", "deepcopy", "copy.copy", "list", "sorted", "float", "abs", "set", "np.array", "round", "reversed", "int") and n.args:
                add(n, "(%s)" % seg(n.args[0]), "unwrap")
            if f in ("min", "max"):
                add(n.func, "max" if f == "min" else "min", "minmax")
            if f.startswith("np.") and f[3:] in ("argmin", "argmax", "floor", "ceil", "zeros", "ones", "min", "max"):
                sw = {"argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "zeros": "ones", "ones": "zeros", "min": "max", "max": "min"}
                add(n.func, "np." + sw[f[3:]], "npswap")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "False", "cond")
            if isinstance(n, ast.If):
                add(n.test, "True", "cond")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % seg(n.body), "ifexp")
            add(n, "(%s)" % seg(n.orelse), "ifexp")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "flow")
        elif isinstance(n, ast.AugAssign):
            s = seg(n)
            sw = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: ("*=", "/="), ast.Div: ("/=", "*=")}.get(type(n.op))
            if sw:
                add(n, s.replace(sw[0], sw[1], 1), "aug")
                add(n, s.replace(sw[0], "=", 1), "augset")
            add(n, "pass", "del")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Slice,)) and n.slice.step is not None:
            add(n, "(%s)" % seg(n.value), "slice")
    return out


def apply(m, root):
    p = os.path.join(root, "qiskit_optimization", m["file"])
    raw = open("%s/%s" % (PKG, m["file"]), "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"]
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def tests(root):
    env = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", QISKIT_PARALLEL="FALSE",
               PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, "-m", "pytest", "test", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "--disable-warnings"],
                           cwd=root, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        out = []
        for d, _, fs in os.walk(PKG):
            for f in sorted(fs):
                rel = os.path.relpath(os.path.join(d, f), PKG)
                if f.endswith(".py") and f not in ("__init__.py", "version.py"):
                    out += sites(rel)
        random.Random(7).shuffle(out)
        for i, m in enumerate(out):
            m["id"] = i
        json.dump(out, open(sys.argv[2], "w"))
        print(len(out))
        return
    muts = json.load(open(sys.argv[2]))
    lock = Lock()
    if cmd == "filter":
        n = int(sys.argv[4])
        start = int(sys.argv[5]) if len(sys.argv) > 5 else 0
        W = int(os.environ.get("MUT_WORKERS", "6"))
        roots = []
        for k in range(W):
            r = "/tmp/mut/w%d" % k
            shutil.rmtree(r, ignore_errors=True)
            shutil.copytree("/repo", r, symlinks=True)
            roots.append(r)
        done = []

        def one(m):
            with lock:
                r = roots.pop()
            try:
                apply(m, r)
                try:
                    ast.parse(open(os.path.join(r, "qiskit_optimization", m["file"])).read())
                except SyntaxError:
                    return
                ok = tests(r)
                with lock:
                    if ok:
                        done.append(m)
                        json.dump(done, open(sys.argv[3], "w"))
                        print(len(done), m["id"], m["file"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)
            finally:
                shutil.copy("%s/%s" % (PKG, m["file"]), os.path.join(r, "qiskit_optimization", m["file"]))
                with lock:
                    roots.append(r)

        with ThreadPoolExecutor(W) as ex:
            list(ex.map(one, muts[start:start + n]))
        for k in range(W):
            shutil.rmtree("/tmp/mut/w%d" % k, ignore_errors=True)
        return
    if cmd == "judge":
        res = {}
        if os.path.exists(sys.argv[3]):
            res = json.load(open(sys.argv[3]))
        r = "/tmp/mut/judge"
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree("/repo", r, symlinks=True)
        only = sys.argv[4:]
        for m in muts:
            if str(m["id"]) in res and not only or only and str(m["id"]) not in only:
                continue
            apply(m, r)
            how = "SURVIVED"
            try:
                for p in props_for(m["file"]):
                    try:
                        q = subprocess.run(["%s/check" % VERIF, p], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"),
                                           capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        how = p + " timeout"
                        break
                    if q.returncode == 1 and "VIOLATION property=" + p in q.stdout:
                        how = p
                        break
                    if q.returncode:
                        how = p + " rc=%d" % q.returncode
                        break
            finally:
                shutil.copy("%s/%s" % (PKG, m["file"]), os.path.join(r, "qiskit_optimization", m["file"]))
            res[str(m["id"])] = how
            json.dump(res, open(sys.argv[3], "w"))
            print(how, m["id"], m["file"], m["line"], m["what"], repr(m["old"][:70]), "->", repr(m["new"][:70]), flush=True)
        shutil.rmtree(r, ignore_errors=True)


main()
