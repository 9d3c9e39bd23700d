"""Writes KNOWN_FINDINGS.txt from the fix: commits in /repo (run by hand, never by a check)."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # commit subject prefix -> property, what failed
    ("decode dictionary eigenstates", "C01", "shot-based (dictionary) eigenstates were read with reversed qubit order and amplitudes taken as probabilities (also C02, C03)"),
    ("keep the best trial", "C06", "multi-start kept the worst trial when maximising"),
    ("do not modify the problem", "C10", "Grover and recursive optimizers with converters=[] rewrote the caller's objective"),
    ("register a constraint only", "C13", "a rejected constraint left its name registered"),
    ("add no variable at all", "C13", "a rejected batch of variables was partly added"),
    ("keep the current problem if", "C13", "a docplex model that is rejected left the program cleared or half loaded (also C14)"),
    ("add no variables if an Ising", "C13", "a rejected Ising operator left its variables in the program"),
    ("report a failure if the SDP", "C08", "a failing SDP solver made the optimizer crash on an inconsistent result instead of reporting failure"),
    ("use a private random generator", "C12", "constructing GoemansWilliamsonOptimizer reseeded numpy's global generator, and its cuts depended on foreign draws (also C11)"),
    ("accept zero as the seed", "C12", "Tsp.create_random_instance(seed=0) ignored the seed"),
    ("read files in TSPLIB", "C15", "well-formed TSPLIB files were rejected and incomplete ones silently filled with (0,0)"),
    ("read the edge weights", "C15", "Gset edge weights were replaced by node numbers"),
    ("convert integer variables with identical", "C01", "an integer variable with equal bounds made the conversion crash"),
    ("do not regard not-a-number", "C09", "not-a-number values were reported as a successful, feasible solution"),
    ("compute the dual residual", "C05", "y was stored among the z iterates, so the dual residual used the wrong previous z"),
    ("let ADMM decrease", "C05", "rho was increased where the residual rule decreases it"),
    ("optimize all binary variables", "C05", "binary variables occurring only as second factor or with a negative coefficient were never optimised"),
    ("remove the binary objective", "C05", "products of binary variables stayed in the continuous step"),
    ("aggregate the results of several", "C07", "several warm starts: samples were decoded twice, values over 9 mangled, infeasible samples called successful"),
    ("keep the bounds of a variable", "C04", "replacing x_i by 1-x_j forced x_j to zero in the reduced program"),
    ("list the best raw sample", "C03", "raw samples were listed worst first when maximising"),
    ("return a zero operator", "C18", "the Ising form of a constant objective had energy 1 too much"),
    ("scale the linear terms of products", "C01", "products of integer variables with non-zero lower bounds were converted to a different objective"),
    ("store coefficients as floating", "C05", "coefficients entered as integer arrays were stored as integers, so that fractional coefficients set later (rho/2 in ADMM) were truncated (also C13)"),
    ("ADMM measures its time limit", "C05", "a step of the system clock made ADMM run past its time limit or stop before it"),
    ("compute the first dual residual", "C05", "with a warm start the first dual residual was computed from zero instead of the starting z"),
    ("GoemansWilliamsonOptimizer reports failure for a non-finite", "C08", "a not-a-number SDP solution was rounded to an arbitrary cut and reported as success"),
    ("GoemansWilliamsonOptimizer handles numerically singular", "C08", "an SDP solution with a smallest eigenvalue of about 1e-17 made the optimizer crash"),
    ("from_docplex keeps the narrowed", "C13", "a binary variable fixed by its bounds in a docplex model (or LP file) was free in the loaded program (also C14)"),
    ("from_ising replaces the content", "C13", "from_ising on a program that already had variables attached the operator's terms to the wrong variables"),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = ["# finding: property=<id> class=<violation class> <what fails>   -- genuine, unrepaired: reported as KNOWN-FINDING",
       "# fixed: property=<id> <commit> <what failed>                    -- repaired in /repo; suppresses nothing"]
used = set()
for line in reversed(log):
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [x for x in MAP if s[5:].startswith(x[0])]
    assert len(m) == 1, s
    used.add(m[0][0])
    out.append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
assert len(used) == len(MAP), [m for m in MAP if m[0] not in used]
extra = os.path.join(ROOT, "tools", "findings.txt")
if os.path.exists(extra):
    out += open(extra).read().splitlines()
open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
