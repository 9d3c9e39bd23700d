"""Writes /verif/properties.jsonl (kept as a script so the wording has one source)."""
import json, os
A = "qiskit_optimization/algorithms/"
P = "qiskit_optimization/problems/"
V = "qiskit_optimization/converters/"
APP = "qiskit_optimization/applications/"
props = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe or [], "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": anchors})


prop("C01", "Eigensolver-backed solving returns only truthful results",
     "Whatever state a minimum-eigenvalue solver hands back (exact, sampled, noisy, degenerate, or none at all), solving a "
     "program either raises, or reports a failure without values, or returns one value per variable of the caller's program, "
     "in the program's own order and under its own names, whose reported objective is the program's objective at those values "
     "and whose status is success exactly when all bounds and constraints hold there. "
     "The reported values are the ones decoded from the best-energy outcome the solver observed. "
     "A solver that reports no state is reported as a failure, never as a solution.",
     ["inputs", "fault_sequences", "configurations"],
     "for every compatible binary/integer program (any sense, bounds, inequality/equality constraints, penalty, converter chain) "
     "and every measurement outcome or state format the eigensolver may return",
     "Tests use a few fixed programs with exact or seeded healthy backends; the outcome of a quantum backend is nondeterministic "
     "and the wrong-answer paths only show for outcomes, formats and programs no test samples.",
     [A + "minimum_eigen_optimizer.py", A + "optimization_algorithm.py", V + "quadratic_program_to_qubo.py",
      V + "integer_to_binary.py", V + "inequality_to_equality.py", V + "linear_equality_to_penalty.py"],
     [("solve pipeline convert -> eigensolver -> interpret", A + "minimum_eigen_optimizer.py"),
      ("interpretation and feasibility status", A + "optimization_algorithm.py")],
     observe=["result of solve(): x, fval, status, variables_dict, variable_names"])

prop("C02", "Reported samples account exactly for the measured distribution",
     "The samples attached to a result are exactly the outcomes that were measured: their probabilities are the measured ones and "
     "sum to one, each qubit outcome is attributed to the variable it encodes, outcomes that decode to the same assignment are "
     "merged into one sample carrying their total probability, and no assignment appears twice. "
     "Each sample carries the objective value and feasibility status of its own assignment, and samples are ordered feasible "
     "first and best objective first; the raw samples describe the same distribution on the converted program.",
     ["inputs", "fault_sequences", "configurations"],
     "for every program and every measured distribution, in every format a solver may return it (shot-based dictionaries, state "
     "vectors, state functions), including readout noise, leakage to infeasible assignments and single-shot results",
     "Tests compare a handful of probabilities from one seeded simulator run, mostly state vectors; distributions from shots "
     "vary from run to run.",
     [A + "optimization_algorithm.py", A + "minimum_eigen_optimizer.py", A + "grover_optimizer.py"],
     [("decoding of eigenstates into samples", A + "optimization_algorithm.py"),
      ("merging and sorting of samples", A + "optimization_algorithm.py")],
     observe=["result.samples", "result.raw_samples"])

prop("C03", "Grover search stops and reports the best outcome it measured",
     "For every sequence of backend outcomes, Grover adaptive search on a program whose values fit its value register returns "
     "within a bounded number of circuit executions once the backend behaves, and the answer it reports has an objective no worse "
     "than that of any assignment it measured. "
     "Even under readout errors the reported objective and status are those of the reported values, the samples account for the "
     "measured distribution, and no assignment is claimed whose objective differs from what is reported.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "for every integer-valued program within the register range, every number of iterations, shot or state-vector backend, and "
     "every outcome sequence including bursts of corrupted outcomes",
     "Tests run a few programs with one seed on a noiseless simulator; which outcome is drawn at each step is random.",
     [A + "grover_optimizer.py"],
     [("threshold / improvement tracking loop", A + "grover_optimizer.py"),
      ("stop conditions on non-improving loops, keys and rotations", A + "grover_optimizer.py")],
     observe=["executions seen by the backend", "result x/fval/status/samples"])

prop("C04", "Recursive elimination preserves energies and unrolls consistently",
     "Whatever the inner optimizer answers in each round, recursive optimization eliminates exactly one variable per round until "
     "the requested size is reached, always along a strongest observed correlation and with the sign of that correlation. "
     "Each reduced program has, at every assignment, the objective of the full program at the assignment obtained by undoing the "
     "replacements. "
     "The returned values satisfy every recorded replacement, agree with the final sub-solver on the surviving variables, and carry "
     "the caller program's own objective and status.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "for every unconstrained-convertible program, every sequence of inner results (noisy, tied, degenerate) and every minimum size",
     "Tests use two or three small programs with an exact inner solver, so almost no elimination orders are reached.",
     [A + "recursive_minimum_eigen_optimizer.py", P + "quadratic_program.py", A + "optimization_algorithm.py"],
     [("correlation-driven replacement loop", A + "recursive_minimum_eigen_optimizer.py"),
      ("variable substitution", P + "quadratic_program.py")],
     observe=["programs passed to the inner optimizers", "result.replacements", "result.x"])

prop("C05", "ADMM respects its budgets and reports its best iterate",
     "Whatever its sub-solvers answer and however long they take, ADMM performs no iteration beyond its iteration limit, starts no "
     "iteration after its time limit has elapsed or its residual tolerance was met, and stops no earlier than those conditions. "
     "The iterates, residuals, penalty and multipliers it records follow the documented update rules from the sub-solver answers. "
     "The reported values are those of the recorded iterate with the least merit, with the caller program's own objective and "
     "status.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "for every mixed-binary program it accepts, every parameter setting (two/three block, both penalty update rules, warm start), "
     "every timing of sub-solver calls and every sequence of sub-solver answers",
     "Tests run a few textbook problems to convergence with exact sub-solvers and never exercise the clock.",
     [A + "admm_optimizer.py"],
     [("main loop with maxiter / tol / max_time", A + "admm_optimizer.py"),
      ("best-merit selection", A + "admm_optimizer.py"),
      ("rho / lambda updates", A + "admm_optimizer.py")],
     state=[("iterate history", "x0/u/z/y, merits, residuals per iteration", A + "admm_optimizer.py")],
     observe=["sub-problems and answers at the sub-solver interface", "result.state", "result x/fval/status"])

prop("C06", "Multi-start local search returns the best of all its trials",
     "Running several trials from different starting points returns the values of a trial whose objective is the best among all "
     "trials in the program's own sense, for minimisation and maximisation alike, whatever each local search returned. "
     "Exactly the requested number of trials is run, the first from the origin and the others from points inside the (clipped) "
     "variable bounds. "
     "Every trial searches the caller's own objective, in the caller's own sense, over exactly the points that the caller's bounds "
     "and constraints allow. "
     "The reported objective, status and solver details belong to the reported values.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "for every continuous program, number of trials, clip value and every sequence of local-search outcomes (stalled, diverged, "
     "infeasible, improving or worsening in any order)",
     "Which starting points are drawn and where a local search ends is random; tests check one seeded outcome.",
     [A + "multistart_optimizer.py", A + "slsqp_optimizer.py", A + "cobyla_optimizer.py"],
     [("trial loop keeping the best value", A + "multistart_optimizer.py")],
     observe=["start points given to the local solver and points it returned", "result x/fval/status"])

prop("C07", "Warm-start QAOA uses only good starts and reports truthful results",
     "If the pre-solver does not report success the solve raises; otherwise one QAOA run is made per used pre-solution, each with "
     "the initial state and mixer encoding that pre-solution's values regularised into the configured range. "
     "The combined result averages the sample probabilities of all runs, gives every sample the objective and feasibility of its "
     "own assignment, and reports the best of these samples, with values, objective and status of the caller's own program that agree "
     "with each other.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "for every program, number of initial solutions, regularisation, pre-solver behaviour and every sampled QAOA outcome",
     "Tests only run single-binary-program cases with an exact pre-solver; aggregation over several starts with integer variables, "
     "constraints or noisy samples is never reached.",
     [A + "warm_start_qaoa_optimizer.py", A + "minimum_eigen_optimizer.py"],
     [("pre-solver status check and per-start loop", A + "warm_start_qaoa_optimizer.py"),
      ("sample aggregation", A + "warm_start_qaoa_optimizer.py")],
     observe=["initial state and mixer seen by QAOA at each run", "result x/fval/status/samples"])

prop("C08", "Goemans-Williamson reports real cuts and survives a failing SDP solver",
     "Every returned cut is a 0/1 assignment of the caller's variables whose reported value is the weight it cuts, the number of cuts "
     "is at most the number requested, distinct cuts are pairwise different up to complement when uniqueness is asked for, and "
     "sorted cuts are in non-increasing order with the first one reported as the solution. "
     "If the semidefinite solver fails or yields no usable solution, the optimizer reports failure or raises, "
     "and never presents a success; an inaccurate or rank-deficient solution still yields cuts, and with a healthy solver, "
     "non-negative weights and many cuts the best cut comes within the algorithm's guarantee of the maximum cut.",
     ["inputs", "fault_sequences", "configurations"],
     "for every max-cut program, cut count, option combination, random hyperplane draw and semidefinite-solver behaviour (errors, "
     "no solution, inaccurate or rank-deficient solutions)",
     "Tests run one graph with one seed and a healthy solver.",
     [A + "goemans_williamson_optimizer.py"],
     [("random hyperplane rounding and cut evaluation", A + "goemans_williamson_optimizer.py"),
      ("solver error handling", A + "goemans_williamson_optimizer.py")],
     observe=["result.samples", "result x/fval/status"])

prop("C09", "A failing component is never reported as a successful solve",
     "If any solver, backend, sub-optimizer or pre-solver raises, times out, or returns nothing usable at any of its calls during a "
     "solve, the solve terminates and either raises or returns a result; a returned result is marked successful only if its values "
     "really satisfy all bounds and constraints and its objective is the objective at those values. "
     "An error raised by a component is never swallowed and replaced by an invented solution.",
     ["fault_sequences", "crash_points", "configurations"],
     "for every optimizer in the package (on programs of the kind it is documented for) and every call index at which its solver or backend can fail, with every failure kind "
     "(exception, missing state, not-a-number, wrong status)",
     "No test injects a failure into a solver or backend.",
     [A + "minimum_eigen_optimizer.py", A + "grover_optimizer.py", A + "recursive_minimum_eigen_optimizer.py",
      A + "admm_optimizer.py", A + "warm_start_qaoa_optimizer.py", A + "goemans_williamson_optimizer.py",
      A + "cplex_optimizer.py", A + "slsqp_optimizer.py", A + "cobyla_optimizer.py"],
     [("status derived from feasibility of returned values", A + "optimization_algorithm.py")],
     observe=["outcome of solve(): exception or result"])

prop("C10", "Solving never modifies the caller's program",
     "A program handed to any optimizer, converter or application helper is left exactly as it was (variables, bounds, objective, "
     "sense, constraints, name) whether the call succeeds, fails, or is interrupted at any instant. "
     "Programs and results returned earlier are not changed by later calls either. "
     "Consequently several callers may solve the same program concurrently, each with its own optimizer, and each gets the answer it "
     "would get alone.",
     ["inputs", "schedules", "crash_points", "configurations"],
     "for every optimizer/converter configuration, every program, every point at which the call can be interrupted, and every "
     "interleaving of concurrent callers sharing one program",
     "Tests never compare the program before and after, never interrupt a solve and never share a program between threads.",
     [A + "optimization_algorithm.py", A + "grover_optimizer.py", A + "recursive_minimum_eigen_optimizer.py",
      A + "admm_optimizer.py", V + "quadratic_program_to_qubo.py", V + "linear_equality_to_penalty.py",
      V + "integer_to_binary.py", V + "inequality_to_equality.py", P + "quadratic_program.py"],
     [("deep copies before transformation", V + "integer_to_binary.py"),
      ("conversion before sign flips / substitutions", A + "grover_optimizer.py")],
     observe=["snapshot of the program before, during and after calls"])

prop("C11", "Optimizers and converters carry nothing over from earlier calls",
     "An optimizer or converter that has been used before on any programs, including calls that failed or were interrupted at any "
     "instant, gives on the next program the same result as a freshly made one with the same configuration. "
     "Once faults stop, an exact solver used through any such optimizer returns a feasible assignment with the true optimal value "
     "whenever the program is feasible.",
     ["histories", "crash_points", "fault_sequences"],
     "for every history of programs solved or converted with one object, with failures and interruptions anywhere in the history",
     "Tests create a fresh object per case; state left behind by an earlier or aborted call is invisible to them.",
     [A + "minimum_eigen_optimizer.py", A + "grover_optimizer.py", A + "recursive_minimum_eigen_optimizer.py",
      A + "admm_optimizer.py", V + "quadratic_program_to_qubo.py", V + "linear_equality_to_penalty.py",
      V + "integer_to_binary.py", V + "inequality_to_equality.py"],
     [("per-call re-initialisation of internal state", A + "admm_optimizer.py"),
      ("penalty recomputed on every conversion", V + "linear_equality_to_penalty.py")],
     state=[("converter source/destination programs", "last converted problem", V + "integer_to_binary.py")],
     observe=["result of the next solve/convert+interpret, against a fresh object and a brute-force optimum"])

prop("C12", "Seeded runs are reproducible and isolated from other randomness",
     "With the documented seeds fixed, building a random instance or running an optimizer gives the same result in every process, "
     "under every hash seed, in every order of preceding unrelated calls, and regardless of other code drawing from the ambient "
     "random generators between construction and use when the object owns its seed. "
     "Constructing or using an object that owns its seed does not disturb the random numbers other code receives, and different seeds "
     "give different random instances.",
     ["schedules", "histories", "configurations"],
     "for every seeded entry point (including seed zero), every interleaving of other consumers of randomness, every process and "
     "hash seed",
     "Tests fix one global seed and one order; interference between consumers and hash-order dependence never show.",
     [A + "goemans_williamson_optimizer.py", A + "grover_optimizer.py", A + "multistart_optimizer.py", APP + "tsp.py",
      APP + "vehicle_routing.py", A + "admm_optimizer.py"],
     [("seed handling", A + "goemans_williamson_optimizer.py"), ("random instance generation", APP + "tsp.py")],
     observe=["result objects, digests across processes", "ambient generator state before/after"])

prop("C13", "Building a program is atomic and its indices stay consistent",
     "After any sequence of operations on a program (adding variables one by one or in batches, changing the objective, adding and "
     "removing constraints, substituting variables, clearing, loading a foreign model), including operations that are rejected, every "
     "variable and constraint is reachable both by its position and by its name, positions and names agree, and counts per type are "
     "right. "
     "Loading a foreign model replaces the whole content by that of the model. "
     "An operation that raises leaves the program as it was before the call.",
     ["histories", "fault_sequences"],
     "for every finite history of building operations with valid and invalid arguments in any order",
     "Tests check single operations and that bad arguments raise, not the state left behind after a rejected operation in a longer "
     "history.",
     [P + "quadratic_program.py", P + "variable.py", P + "linear_constraint.py", P + "quadratic_constraint.py",
      P + "linear_expression.py", P + "quadratic_expression.py"],
     [("name-to-position indices", P + "quadratic_program.py")],
     state=[("name indices", "position of each variable/constraint by name", P + "quadratic_program.py")],
     observe=["public accessors after every operation"])

prop("C14", "LP files are complete or the failure is reported",
     "Writing a program to an LP file either raises or leaves a complete file from which reading restores an equivalent program, "
     "whatever disk faults occur (no space, short or failing writes, failing open or close). "
     "Reading a missing, unreadable, truncated or damaged file either raises, leaving the program it was called on unchanged, or "
     "yields the program the file's content describes to the LP reader; a healthy file round-trips the names, bounds and types of all "
     "variables in use, the objective and the constraints.",
     ["inputs", "fault_sequences", "crash_points"],
     "for every program expressible in the format, every disk-fault sequence during writing and every truncation or corruption of the "
     "stored file",
     "Tests write one healthy file to a healthy disk and compare it to a stored copy.",
     [P + "quadratic_program.py"],
     [("export/import via the modelling library", P + "quadratic_program.py")],
     observe=["exceptions, bytes on the simulated disk, program after the call"])

prop("C15", "Graph and TSP benchmark files load faithfully or raise",
     "Loading a well-formed benchmark file yields exactly the graph it describes: the declared number of nodes, every listed edge with "
     "its listed weight, every listed position and the distances computed from the positions. "
     "A file that is missing, unreadable, of an unsupported kind, damaged inside a declared number, or cut short before its declared content is complete raises an "
     "error instead of silently yielding a different graph (a cut within the digits of the very last number excepted).",
     ["inputs", "fault_sequences", "crash_points"],
     "for every well-formed file in the supported formats (comments, spacing, orders), every read granularity, and every truncation or "
     "read error",
     "Tests load at most one stored sample and never a damaged one.",
     [APP + "max_cut.py", APP + "tsp.py"],
     [("Gset parser", APP + "max_cut.py"), ("TSPLIB parser", APP + "tsp.py")],
     observe=["graph returned or exception raised"])

prop("C16", "Applications read any solver outcome back honestly",
     "For every application (cuts, partitions, covers, packings, cliques, stable sets, knapsacks, tours, routes) the program it builds "
     "accepts an assignment exactly when that assignment is a valid combinatorial object, and scores it with that object's real "
     "combinatorial value. "
     "Whatever assignment a noisy solver delivers, reading it back terminates and returns exactly the elements the assignment selects, "
     "losing, inventing or duplicating none; for a valid assignment the returned object is the one encoded. "
     "The most likely outcome of a measured distribution is read with every bit attributed to its own variable, and changing a setting "
     "of an application takes effect in the programs and readings that follow.",
     ["inputs", "fault_sequences", "configurations"],
     "for every instance and every assignment a solver may deliver, including corrupted ones with flipped bits, as array or as result",
     "Tests interpret the one optimal assignment of one instance; noisy backends deliver any assignment.",
     [APP + f for f in ["max_cut.py", "graph_partition.py", "vertex_cover.py", "stable_set.py", "clique.py", "knapsack.py",
                        "number_partition.py", "set_packing.py", "exact_cover.py", "tsp.py", "vehicle_routing.py"]],
     [("program construction", APP + "optimization_application.py"), ("interpretation of results", APP + "vehicle_routing.py")],
     observe=["to_quadratic_program() objective/constraints at assignments", "interpret()"])

# ---- pure functions of their input: listed, not claimed -------------------
NA = [
    ("C17", "Expressions evaluate and differentiate correctly",
     "The value and the gradient of every linear and quadratic expression equal the sums their coefficients define, for every way of "
     "entering the coefficients.",
     [P + "linear_expression.py", P + "quadratic_expression.py"], "coefficient storage and evaluation"),
    ("C18", "Ising form has the same energies as the program",
     "The Ising operator plus its offset has, at every basis state, the objective of the unconstrained binary program at the "
     "corresponding assignment (sign-adjusted for maximisation), and converting back restores the same energies.",
     [P + "quadratic_program.py"], "to/from Ising conversion"),
    ("C19", "Conversions preserve optima and decode to feasible points",
     "Every converter yields a program whose optima decode to optima of the source program, and every feasible source point is encoded "
     "by some point of the converted program.",
     [V + "quadratic_program_to_qubo.py", V + "integer_to_binary.py", V + "inequality_to_equality.py",
      V + "linear_equality_to_penalty.py"], "conversion"),
    ("C20", "Substituting variables keeps the program equivalent",
     "Fixing or replacing variables yields a program whose objective and constraints at every point equal those of the source at the "
     "corresponding point, or reports infeasibility when bounds become contradictory.",
     [P + "quadratic_program.py"], "substitution"),
    ("C21", "Model exchange with the modelling library is lossless",
     "Exporting a program to the modelling library and importing it back preserves variables, objective and constraints, and rejects "
     "what it cannot represent.",
     [P + "quadratic_program.py"], "docplex import/export"),
]
for id, t, s, files, m in NA:
    prop(id, t, s, ["inputs"], "for every program and argument", "Tests sample a handful of inputs.", files, [(m, files[0])])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
