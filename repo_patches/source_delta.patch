From 6cbe440163e9fa3083f7ac3a4b1aa79a66ad54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 01/30] fix: decode dictionary eigenstates as amplitudes in
 qubit order

---
 .../algorithms/grover_optimizer.py               |  8 +++++++-
 .../algorithms/optimization_algorithm.py         | 16 +++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..1b8fb41 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -261,8 +261,14 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
+                        # the keys of circuit results are in the order of qubits, while those
+                        # of eigenvectors are in the reversed order
+                        key_probs = {}  # type: Dict[str, float]
+                        for bitstr, amplitude in self._circuit_results.items():
+                            key = bitstr[0:n_key][::-1]
+                            key_probs[key] = key_probs.get(key, 0.0) + amplitude ** 2
                         self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
+                            key: np.sqrt(prob) for key, prob in key_probs.items()
                         }
 
                     raw_samples = self._eigenvector_to_solutions(
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..f0477bc 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -509,7 +509,9 @@ class OptimizationAlgorithm(ABC):
         """Convert the eigenvector to the bitstrings and corresponding eigenvalues.
 
         Args:
-            eigenvector: The eigenvector from which the solution states are extracted.
+            eigenvector: The eigenvector from which the solution states are extracted. A
+                dictionary maps bitstrings, whose rightmost character is the first qubit,
+                to amplitudes.
             qubo: The QUBO to evaluate at the bitstring.
             min_probability: Only consider states where the amplitude exceeds this threshold.
 
@@ -520,7 +522,7 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': numpy.sqrt(12 / 13), '1': numpy.sqrt(1 / 13)}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
             [('0', 0.7071067811865475, 0.9230769230769231),
             ('1', -0.7071067811865475, 0.07692307692307693)]
@@ -535,7 +537,7 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
@@ -551,13 +553,13 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
+            norm = sum(abs(amplitude) ** 2 for amplitude in eigenvector.values())
             # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            for bitstr, amplitude in eigenvector.items():
+                sampling_probability = abs(amplitude) ** 2 / norm
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    solutions.append(generate_solution(bitstr, qubo, sampling_probability))
+                    solutions.append(generate_solution(bitstr[::-1], qubo, sampling_probability))
 
         elif isinstance(eigenvector, np.ndarray):
             num_qubits = int(np.log2(eigenvector.size))
-- 
2.43.0


From 39f0a0b4c63b204669592a4e886d00404520a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 02/30] fix: keep the best trial of a multi start run when
 maximizing

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 76206a1d27b56db2b8520b53617c3685b328c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 03/30] fix: do not modify the problem to be solved when no
 converters are used

---
 qiskit_optimization/algorithms/grover_optimizer.py           | 5 +++--
 .../algorithms/recursive_minimum_eigen_optimizer.py          | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 1b8fb41..ad554da 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,8 +173,9 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = self._convert(problem, self._converters)
+        # the copy is modified below, the original problem must not be affected
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..861a33c 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,8 +224,9 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = self._convert(problem, self._converters)
+        # the copy is modified below, the original problem must not be affected
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 7913b03a6f3d44479e8dec51c937dbb5fca8998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 04/30] fix: register a constraint only after it has been
 constructed

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..7c31f28 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -646,10 +646,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +739,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +746,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From 05b78636ef9b2fbb2a3558040ff7b38c7103586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 05/30] fix: add no variable at all if one of them is rejected

---
 .../problems/quadratic_program.py             | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 7c31f28..08be884 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -212,22 +212,30 @@ class QuadraticProgram:
 
         names = []
         variables = []
-        k = self.get_num_vars()
+        num_vars = self.get_num_vars()
+        k = num_vars
         lst = keys if isinstance(keys, Sequence) else range(keys)
-        for key in lst:
-            if isinstance(keys, Sequence):
-                indexed_name = name + key_format.format(key)
-            else:
-                indexed_name, k = _find_name(name, key_format, k)
-            if indexed_name in self._variables_index:
-                raise QiskitOptimizationError(
-                    "Variable name already exists: {}".format(indexed_name)
-                )
-            names.append(indexed_name)
-            self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
-            self._variables.append(variable)
-            variables.append(variable)
+        try:
+            for key in lst:
+                if isinstance(keys, Sequence):
+                    indexed_name = name + key_format.format(key)
+                else:
+                    indexed_name, k = _find_name(name, key_format, k)
+                if indexed_name in self._variables_index:
+                    raise QiskitOptimizationError(
+                        "Variable name already exists: {}".format(indexed_name)
+                    )
+                names.append(indexed_name)
+                self._variables_index[indexed_name] = self.get_num_vars()
+                variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
+                self._variables.append(variable)
+                variables.append(variable)
+        except Exception:
+            # add either all of the variables or none of them
+            for indexed_name in names:
+                self._variables_index.pop(indexed_name, None)
+            del self._variables[num_vars:]
+            raise
         return names, variables
 
     def _var_dict(
-- 
2.43.0


From eb9390e65a01340c6dcdb11243753e04d0822dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 06/30] fix: keep the current problem if a docplex model cannot
 be loaded

---
 .../problems/quadratic_program.py              | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 08be884..50ae0bd 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -891,10 +891,24 @@ class QuadraticProgram:
         Raises:
             QiskitOptimizationError: if the model contains unsupported elements.
         """
+        # replace the current problem only if the whole model can be loaded
+        backup = dict(vars(self))
+        QuadraticProgram.__init__(self)
+        try:
+            self._load_docplex(model)
+        except Exception:
+            vars(self).update(backup)
+            raise
 
-        # clear current problem
-        self.clear()
+    def _load_docplex(self, model: Model) -> None:
+        """Loads the contents of a docplex model into this empty quadratic program.
 
+        Args:
+            model: The docplex model to be loaded.
+
+        Raises:
+            QiskitOptimizationError: if the model contains unsupported elements.
+        """
         # get name
         self.name = model.name
 
-- 
2.43.0


From 186885e18286a826c1e4791add3395f17b2ae5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 07/30] fix: add no variables if an Ising operator is rejected

---
 qiskit_optimization/problems/quadratic_program.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 50ae0bd..bb97cec 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1385,10 +1385,6 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
-        # add binary variables
-        for i in range(qubit_op.num_qubits):
-            self.binary_var(name="x_{0}".format(i))
-
         # Create a QUBO matrix
         # The Qubo matrix is an upper triangular matrix.
         # Diagonal elements in the QUBO matrix are for linear terms of the qubit operator.
@@ -1467,6 +1463,9 @@ class QuadraticProgram:
             qubo_matrix[i, i] -= weight
             offset += weight
 
+        # Add binary variables
+        self.binary_var_list(list(range(qubit_op.num_qubits)), name="x_", key_format="{}")
+
         # Set the objective function
         self.minimize(constant=offset, linear=linear_terms, quadratic=quadratic_terms)
         offset -= offset
-- 
2.43.0


From 32c3b6753bd490ab65b961bd8b54f8a1bee90551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 08/30] fix: report a failure if the SDP relaxation of max-cut
 cannot be solved

---
 .../algorithms/goemans_williamson_optimizer.py           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a1593b8 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -154,13 +154,16 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         try:
             chi = self._solve_max_cut_sdp(adj_matrix)
         except (DCPError, DGPError, SolverError):
+            chi = None
+
+        if chi is None:
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
-                fval=0,
+                x=None,
+                fval=None,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-                samples=[],
+                samples=None,
             )
 
         cuts = self._generate_random_cuts(chi, len(adj_matrix))
-- 
2.43.0


From 2eb7213e66d32f390ab017aee2501df454a6f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:27 +0000
Subject: [PATCH 09/30] fix: use a private random generator for the cuts of
 Goemans-Williamson

---
 .../algorithms/goemans_williamson_optimizer.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index a1593b8..cde7a34 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -117,7 +117,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         self._num_cuts = num_cuts
         self._sort_cuts = sort_cuts
         self._unique_cuts = unique_cuts
-        np.random.seed(seed)
+        self._seed = seed
 
     def get_compatibility_msg(self, problem: QuadraticProgram) -> str:
         """Checks whether a given problem can be solved with the optimizer implementing this method.
@@ -292,7 +292,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
             chi = chi + 0.00001 * np.identity(num_vertices)
         x = np.linalg.cholesky(chi).T
 
-        r = np.random.normal(size=(self._num_cuts, num_vertices))
+        r = np.random.RandomState(self._seed).normal(size=(self._num_cuts, num_vertices))
 
         return (np.dot(r, x) > 0) + 0
 
-- 
2.43.0


From e9b2ce085d473f109b62ed8f95eba808c36e3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:27 +0000
Subject: [PATCH 10/30] fix: accept zero as the seed of a random tsp instance

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..a900ad4 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From a9b8df6dff45dab4f00ad64c595606ac7d3d73e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 11/30] fix: read files in TSPLIB format

---
 qiskit_optimization/applications/tsp.py | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index a900ad4..447f270 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -150,21 +150,18 @@ class Tsp(GraphOptimizationApplication):
         Raises:
             QiskitOptimizationError: If the type is not "TSP"
             QiskitOptimizationError: If the edge weight type is not "EUC_2D"
+            QiskitOptimizationError: If the coordinates of the nodes are not complete
 
         Returns:
             A Tsp instance data.
         """
-        name = ""
         coord = []  # type: ignore
+        seen = set()
         with open(filename) as infile:
             coord_section = False
             for line in infile:
-                if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
-                elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                if line.startswith("TYPE"):
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,19 +170,26 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
-                elif coord_section:
+                elif line.startswith("EOF"):
+                    break
+                elif coord_section and line.strip():
                     v = line.split()
                     index = int(v[0]) - 1
                     coord[index][0] = float(v[1])
                     coord[index][1] = float(v[2])
+                    seen.add(index)
+
+        if len(coord) == 0 or seen != set(range(len(coord))):
+            raise QiskitOptimizationError(
+                "The coordinates of the nodes are not complete: {}".format(filename)
+            )
 
         x_max = max(coord_[0] for coord_ in coord)
         x_min = min(coord_[0] for coord_ in coord)
@@ -193,7 +197,7 @@ class Tsp(GraphOptimizationApplication):
         y_min = min(coord_[1] for coord_ in coord)
 
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=dict(enumerate(coord))
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From 4c43d73d13f272d9ba9f1c8b2b438161563e54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 12/30] fix: read the edge weights of files in Gset format

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From 37578909497d24a3bbe30fceee91449d3aa3c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 13/30] fix: convert integer variables with identical bounds to
 binary variables

---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..348de8c 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 8ec6b8ba48cc3af3ecd40dd9b1ec79b70fa8faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:23 +0000
Subject: [PATCH 14/30] fix: do not regard not-a-number as feasible

---
 qiskit_optimization/problems/quadratic_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index bb97cec..c3393cf 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1495,7 +1495,7 @@ class QuadraticProgram:
         violated_variables = []  # type: List[Variable]
         for i, val in enumerate(x):
             variable = self.get_variable(i)
-            if val < variable.lowerbound or variable.upperbound < val:
+            if not variable.lowerbound <= val <= variable.upperbound:
                 violated_variables.append(variable)
 
         # check whether the input satisfy the constraints of the problem
@@ -1504,9 +1504,9 @@ class QuadraticProgram:
             List[Constraint], self._quadratic_constraints
         ):
             lhs = constraint.evaluate(x)
-            if constraint.sense == ConstraintSense.LE and lhs > constraint.rhs:
+            if constraint.sense == ConstraintSense.LE and not lhs <= constraint.rhs:
                 violated_constraints.append(constraint)
-            elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
+            elif constraint.sense == ConstraintSense.GE and not lhs >= constraint.rhs:
                 violated_constraints.append(constraint)
             elif constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs):
                 violated_constraints.append(constraint)
-- 
2.43.0


From 3b7bc47406d93f8d26285cf616e1359e54e630d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 15/30] fix: compute the dual residual of ADMM from the
 previous z

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From 3c1bcbe7d5ec0496f2e8109aecd1f9698b3aa42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 16/30] fix: let ADMM decrease rho if the dual residual is too
 large

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..0e1ae4d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -822,7 +822,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From 63b6fc63640ae674c4b0fd625b97e7cc6a7b77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 17/30] fix: optimize all binary variables of the objective and
 equalities in ADMM

---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0e1ae4d..0d36a4a 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -545,6 +545,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
                 self._state.op.objective.linear[binary_index] != 0
                 or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
                 != 0
+                or np.abs(self._state.op.objective.quadratic.coefficients[:, binary_index]).sum()
+                != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +561,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From b3725e9fa556c3a741c45875f0e96301207d77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 18/30] fix: remove the binary objective from the continuous
 step of ADMM

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0d36a4a..f80d66b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -698,6 +698,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices:
+                op2.objective.quadratic[var_index, other_index] = 0
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From 2997b411684e97ad86ecebad29d82ae3a002b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 19/30] fix: aggregate the results of several warm starts in
 terms of the original problem

---
 .../algorithms/warm_start_qaoa_optimizer.py   | 49 ++++++++-----------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..eb1de18 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,41 +66,28 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: tuple of a sample, probability
+        dict_samples: Dict[Tuple[float, ...], Tuple[SolutionSample, float]] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
-                # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
-                    sample.fval,
-                    sample.probability,
-                )
-                if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
-                else:
-                    dict_samples[state] = (fval, prob)
+                state = tuple(sample.x)
+                prob = dict_samples[state][1] if state in dict_samples else 0.0
+                dict_samples[state] = (sample, prob + sample.probability)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
         num_results = len(results)
-        for state in dict_samples:
-            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
-            sample = SolutionSample(
-                x=_from_string(state),
-                fval=dict_samples[state][0],
-                probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+        for sample, prob in dict_samples.values():
+            aggregated_samples.append(
+                SolutionSample(
+                    x=sample.x,
+                    fval=sample.fval,
+                    probability=prob / num_results,
+                    status=sample.status,
+                )
             )
-            aggregated_samples.append(sample)
 
         return aggregated_samples
 
@@ -336,15 +323,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples refer to the original variables already
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From 5dfb69d752bc5a69035e003395379cf57a9b9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 20/30] fix: keep the bounds of a variable that replaces its
 complement in recursive optimization

---
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index 861a33c..9f7983d 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -276,9 +276,13 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                         problem_.objective.linear[k] = 0
 
                 # 2. replace x_i by -x_j
+                bounds = (problem_.variables[j].lowerbound, problem_.variables[j].upperbound)
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                     raise QiskitOptimizationError("Infeasible due to variable substitution")
+                # x_i = 1 - x_j does not restrict x_j
+                variable = problem_.get_variable(x_j)
+                variable.lowerbound, variable.upperbound = bounds
                 replacements[x_i] = (x_j, -1)
 
         # solve remaining problem
-- 
2.43.0


From 3988586248ad3a16eb145a5b5d20f31cd4bb10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 21/30] fix: list the best raw sample of Grover search first
 when maximizing

---
 qiskit_optimization/algorithms/grover_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index ad554da..efef383 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -275,7 +275,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From ce6864a443e33c722378dca7e71a7789a556a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 22/30] fix: return a zero operator as the Ising form of a
 constant objective

---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index c3393cf..017a00f 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1349,7 +1349,7 @@ class QuadraticProgram:
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * (I ^ num_nodes)
 
         return qubit_op, offset
 
-- 
2.43.0


From 9f888680636e6be2902c8156dc7d11b229191065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 23/30] fix: scale the linear terms of products of shifted
 integer variables

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index 348de8c..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From 2e89c2a13bd71c5e15230a0ace17fb108354c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:48 +0000
Subject: [PATCH 24/30] fix: store coefficients as floating point numbers

---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From 6bfb10515d1950540b67e00f338ce3ca3280ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:13 +0000
Subject: [PATCH 25/30] fix: compute the first dual residual of a warm-started
 ADMM from the starting point

---
 qiskit_optimization/algorithms/admm_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index f80d66b..1f0c230 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -909,6 +909,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         self._state.x0 = cts_result.x[self._state.binary_indices]
         self._state.u = cts_result.x[self._state.continuous_indices]
         self._state.z = cts_result.x[self._state.binary_indices]
+        self._state.z_init = self._state.z
 
     @property
     def parameters(self) -> ADMMParameters:
-- 
2.43.0


From fa508769b26f68fbb8df2e4d500e6721c32c9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 26/30] fix: GoemansWilliamsonOptimizer reports failure for a
 non-finite SDP solution

---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index cde7a34..ba2dc4d 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             chi = None
 
-        if chi is None:
+        if chi is None or not np.all(np.isfinite(chi)):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
                 x=None,
-- 
2.43.0


From d4f7058509ddc402976b025ffdea52ca7e5e4239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 27/30] fix: GoemansWilliamsonOptimizer handles numerically
 singular SDP solutions

---
 .../algorithms/goemans_williamson_optimizer.py             | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index ba2dc4d..33e0f8c 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -286,10 +286,11 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
             An array of random cuts.
         """
         eigenvalues = np.linalg.eigh(chi)[0]
-        if min(eigenvalues) < 0:
-            chi = chi + (1.001 * abs(min(eigenvalues)) * np.identity(num_vertices))
-        elif min(eigenvalues) == 0:
+        if abs(min(eigenvalues)) < 1e-10:
+            # numerically singular, a shift by the eigenvalue itself would be lost in rounding
             chi = chi + 0.00001 * np.identity(num_vertices)
+        elif min(eigenvalues) < 0:
+            chi = chi + (1.001 * abs(min(eigenvalues)) * np.identity(num_vertices))
         x = np.linalg.cholesky(chi).T
 
         r = np.random.RandomState(self._seed).normal(size=(self._num_cuts, num_vertices))
-- 
2.43.0


From 4467ab40f6956db59d7d04a2c938cf46addae464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:10 +0000
Subject: [PATCH 28/30] fix: from_ising replaces the content of a non-empty
 problem

---
 qiskit_optimization/problems/quadratic_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 017a00f..da9707e 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1463,6 +1463,9 @@ class QuadraticProgram:
             qubo_matrix[i, i] -= weight
             offset += weight
 
+        # Replace the current problem, the terms refer to the positions of the qubits
+        QuadraticProgram.__init__(self, self.name)
+
         # Add binary variables
         self.binary_var_list(list(range(qubit_op.num_qubits)), name="x_", key_format="{}")
 
-- 
2.43.0


From 56272ecc42ffd1f7c845c05ff74e6baf03997f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 29/30] fix: from_docplex keeps the narrowed bounds of binary
 variables

---
 qiskit_optimization/problems/quadratic_program.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index da9707e..fb081b8 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -919,7 +919,11 @@ class QuadraticProgram:
             if isinstance(x.vartype, ContinuousVarType):
                 x_new = self.continuous_var(x.lb, x.ub, x.name)
             elif isinstance(x.vartype, BinaryVarType):
-                x_new = self.binary_var(x.name)
+                if x.lb > 0 or x.ub < 1:
+                    # a binary variable of this class always ranges over both values
+                    x_new = self.integer_var(max(x.lb, 0), min(x.ub, 1), x.name)
+                else:
+                    x_new = self.binary_var(x.name)
             elif isinstance(x.vartype, IntegerVarType):
                 x_new = self.integer_var(x.lb, x.ub, x.name)
             else:
-- 
2.43.0


From 80672e1c82c5dd984f163cfd97988453dcca1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 30/30] fix: ADMM measures its time limit with a monotonic
 clock

Setting the system clock while ADMM was running made it run past its
time limit or stop long before it.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 1f0c230..4d174a7 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -323,7 +323,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         # at each iteration.
         self._convert_problem_representation()
 
-        start_time = time.time()
+        start_time = time.monotonic()
         # we have not stated our computations yet, so elapsed time initialized as zero.
         elapsed_time = 0.0
         iteration = 0
@@ -389,7 +389,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._update_rho(residual, dual_residual)
 
             iteration += 1
-            elapsed_time = time.time() - start_time
+            elapsed_time = time.monotonic() - start_time
 
         binary_vars, continuous_vars, objective_value = self._get_best_merit_solution()
         solution = self._revert_solution_indexes(binary_vars, continuous_vars)
-- 
2.43.0

