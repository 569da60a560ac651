From a91fca83667505b0c5386e7070f4e23af6d3ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 01/21] fix: instantiate constraints over the indices of their
 bounds as well

`or` on IndexingStructure objects, which are always truthy, ignored the
bounds: a time or scenario dependent bound on an expression that does not
depend on time or scenario was only enforced at the first index.
---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From 674a2f78b5ce938af80c4371f1f7057f85a9c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 02/21] fix: do not let hash randomisation order the coupling
 variables

They come from a set: the column order of the investment master, hence its
MPS and structure files, changed from one interpreter to the next.
---
 src/andromede/simulation/decision_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..deb0a19 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -167,7 +167,7 @@ class DecisionTreeNode(NodeMixin):
         Thomas has changed the AST instantiation
         TODO Update this once the new AST is merged
         """
-        for var_name in self.coupling_info.variables:
+        for var_name in sorted(self.coupling_info.variables):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
-- 
2.43.0


From 3b7122a06f53e639aec6357e5564373bf2d651c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:59 +0000
Subject: [PATCH 03/21] fix: give each decision tree its own couplings

The coupling network and constraints were default arguments, shared by every
tree of the process: a tree's master contained the coupling constraints of all
the trees coupled before it.
---
 src/andromede/simulation/decision_tree.py | 50 +++++++++++------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index deb0a19..4695adc 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -55,14 +55,18 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self.coupling_network = (
+            coupling_network if coupling_network is not None else Network("_Coupler")
+        )
+        self.coupling_info = (
+            coupling_info if coupling_info is not None else CouplingInfo()
+        )
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -155,19 +159,13 @@ class DecisionTreeNode(NodeMixin):
         variables: List[Variable] = []
         constraints: List[Constraint] = []
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in sorted(self.coupling_info.variables):
+        # Each node holds the couplings defined on it: gather those of the whole tree
+        infos: List[CouplingInfo] = []
+        for node in self.traverse():
+            if not any(node.coupling_info is info for info in infos):
+                infos.append(node.coupling_info)
+
+        for var_name in sorted(set().union(*(info.variables for info in infos))):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
@@ -178,14 +176,16 @@ class DecisionTreeNode(NodeMixin):
                 ),
             )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
-            constraints.append(
-                Constraint(
-                    name=cst_name,
-                    expression=expr,
-                    context=ProblemContext.INVESTMENT,
-                ),
-            )
+        for info in infos:
+            for cst_name, expr in info.constraints.items():
+                constraints.append(
+                    Constraint(
+                        # Index makes the name unique over the whole tree
+                        name=f"{cst_name}_{len(constraints)}",
+                        expression=expr,
+                        context=ProblemContext.INVESTMENT,
+                    ),
+                )
 
         self.coupling_network.add_component(
             create_component(
-- 
2.43.0


From b70d9d00e724f3fcee9a443746f71d326ff7e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:16 +0000
Subject: [PATCH 04/21] fix: keep integrality, constant costs and every
 constraint of merged masters

Merging the masters of a decision tree turned integer investment variables into
continuous ones, dropped the constant part of the costs, dropped constraints
without variables and merged constraints bearing the same name.
---
 src/andromede/simulation/optimization.py | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..0c1e2d1 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -799,7 +799,6 @@ def fusion_problems(
     root_master.name = "master"
 
     root_vars: Dict[str, lp.Variable] = dict()
-    root_constraints: Dict[str, lp.Constraint] = dict()
     root_objective = root_master.solver.Objective()
 
     # We stock the coupler's variables to check for
@@ -810,12 +809,25 @@ def fusion_problems(
     for master in masters:
         context = master.context
         objective = master.solver.Objective()
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
+
+        constraints = [
+            (
+                cstr,
+                root_master.solver.Constraint(
+                    cstr.Lb(), cstr.Ub(), f"{master.name}_{cstr.name()}"
+                ),
+            )
+            for cstr in master.solver.constraints()
+        ]
 
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,22 +837,16 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
                     var.name()
                 ].is_in_objective
 
-            for cstr in master.solver.constraints():
+            for cstr, root_cstr in constraints:
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
                 if coeff != 0:
-                    key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
-                    root_cstr = root_constraints[key]
                     root_cstr.SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
-- 
2.43.0


From 558e58e81b75f8b875a18bfb40132cfc5f24e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 05/21] fix: keep the coupling constraints of a decision tree
 with a single node

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0c1e2d1..09329fa 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 3f9d87904d3607d7eecf787d5c328148b281f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:32 +0000
Subject: [PATCH 06/21] fix: do not modify the right operand when multiplying
 linear expressions

---
 src/andromede/simulation/linear_expression.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..08d89d3 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -378,16 +378,15 @@ class LinearExpression:
             elif is_close_abs(const_expr.constant, 1, EPS):
                 _copy_expression(left_expr, self)
             else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
-                        term.component_id,
-                        term.variable_name,
-                        term.time_index,
-                        term.scenario_index,
+                # The right operand must be left untouched
+                factor = const_expr.constant
+                self.constant = left_expr.constant * factor
+                self.terms = {
+                    term_key: dataclasses.replace(
+                        term, coefficient=term.coefficient * factor
                     )
-                _copy_expression(left_expr, self)
+                    for term_key, term in left_expr.terms.items()
+                }
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +433,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From b02deeed2ae4cb3cdc62618371f345dc788c88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:32 +0000
Subject: [PATCH 07/21] fix: subtract, not add, when a number is on the left of
 a subtraction

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From 10c88ebb63ee308c7bc39f171043dbbeeaec8b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:12 +0000
Subject: [PATCH 08/21] fix: forget the previous values of an output variable
 when it is assigned

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..6cd2cd4 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value.clear()
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From 4752f86a7de64516cfa0889299e04e8eafdf0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:16 +0000
Subject: [PATCH 09/21] fix: give each candidate its own column position of the
 exported MPS files

---
 .../simulation/benders_decomposed.py          | 30 ++++++----
 src/andromede/simulation/optimization.py      | 56 ++++++++++++++++++-
 2 files changed, 74 insertions(+), 12 deletions(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..69e4965 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -24,6 +24,7 @@ from andromede.simulation.optimization import (
     OptimizationProblem,
     build_problem,
     fusion_problems,
+    get_mps_positions,
 )
 from andromede.simulation.output_values import (
     BendersDecomposedSolution,
@@ -88,29 +89,36 @@ class BendersDecomposedProblem:
         candidates = set()
 
         problem_to_candidates["master"] = {}
-        for solver_var_info in self.master.context._solver_variables.values():
-            problem_to_candidates["master"][
-                solver_var_info.name
-            ] = solver_var_info.column_id
-            candidates.add(solver_var_info.name)
+        for name, column in self._get_columns(self.master).items():
+            problem_to_candidates["master"][name] = column
+            candidates.add(name)
 
         for problem in self.subproblems:
             problem_to_candidates[problem.name] = {}
 
-            for solver_var_info in problem.context._solver_variables.values():
-                if solver_var_info.name in candidates:
+            for name, column in self._get_columns(problem).items():
+                if name in candidates:
                     # If candidate was identified in master
-                    problem_to_candidates[problem.name][
-                        solver_var_info.name
-                    ] = solver_var_info.column_id
+                    problem_to_candidates[problem.name][name] = column
 
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                structure_str += f"{problem_name:>50} {candidate:>49} {index:>9}\n"
 
         return structure_str
 
+    @staticmethod
+    def _get_columns(problem: OptimizationProblem) -> Dict[str, int]:
+        """
+        Position of each variable of the problem in the columns of its MPS file
+        """
+        positions = get_mps_positions(problem.export_as_mps())
+        return {
+            info.name: positions[info.column_id]
+            for info in problem.context._solver_variables.values()
+        }
+
     def export_options(
         self, *, solver_name: str = "XPRESS", log_level: int = 0
     ) -> Dict[str, Any]:
diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 09329fa..0e34d52 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -746,12 +746,66 @@ class OptimizationProblem:
                     )
 
     def export_as_mps(self) -> str:
-        return self.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False)
+        return _declare_empty_columns(
+            self.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False),
+            self.solver,
+        )
 
     def export_as_lp(self) -> str:
         return self.solver.ExportModelAsLpFormat(obfuscated=False)
 
 
+def _get_mps_names(mps: str, section: str, field: int) -> List[str]:
+    """
+    Names of the columns in a section of a MPS file, in the order of the file
+    """
+    names: Dict[str, None] = {}
+    in_section = False
+    for line in mps.splitlines():
+        if line[:1] not in ("", " ", "*"):
+            in_section = line.startswith(section)
+        elif in_section and "'MARKER'" not in line:
+            names[line.split()[field]] = None
+    return list(names)
+
+
+def get_mps_positions(mps: str) -> List[int]:
+    """
+    For each column of the solver, its position in the COLUMNS section of the MPS file.
+    They may differ because integer columns come first in the file,
+    whereas the BOUNDS section lists all the columns in the order of the solver.
+    """
+    positions = {name: i for i, name in enumerate(_get_mps_names(mps, "COLUMNS", 0))}
+    return [positions[name] for name in _get_mps_names(mps, "BOUNDS", 2)]
+
+
+def _declare_empty_columns(mps: str, solver: lp.Solver) -> str:
+    """
+    Adds the columns without any coefficient, that the solver leaves out
+    """
+    columns = set(_get_mps_names(mps, "COLUMNS", 0))
+    empty = [
+        (name, var.integer())
+        for name, var in zip(_get_mps_names(mps, "BOUNDS", 2), solver.variables())
+        if name not in columns
+    ]
+    if not empty:
+        return mps
+
+    added = [f"    {name}  COST  0" for name, integer in empty if not integer]
+    if len(added) < len(empty):
+        added.append("  INTSTART  'MARKER'  'INTORG'")
+        added += [f"    {name}  COST  0" for name, integer in empty if integer]
+        added.append("  INTEND  'MARKER'  'INTEND'")
+
+    lines = mps.splitlines()
+    if not columns:
+        added.insert(0, "COLUMNS")
+    previous = lines.index("COLUMNS" if columns else "ROWS")
+    end = next(i for i in range(previous + 1, len(lines)) if lines[i][:1] != " ")
+    return "\n".join(lines[:end] + added + lines[end:]) + "\n"
+
+
 def build_problem(
     network: Network,
     database: DataBase,
-- 
2.43.0


From ebd2589fbf036852b37a0f69d0552d2219469364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:27 +0000
Subject: [PATCH 10/21] fix: run external solvers in their directory without
 moving the whole process there

---
 src/andromede/simulation/runner.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..f4f9a0f 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -10,7 +10,6 @@
 #
 # This file is part of the Antares project.
 
-import os
 import pathlib
 import subprocess
 import sys
@@ -44,14 +43,13 @@ class CommandRunner:
             print("Return code 0 for now")
             return 0
 
-        os.chdir(self.emplacement)
         res = subprocess.run(
             [self.current_dir / self.command, *self.arguments],
+            cwd=self.emplacement,
             stdout=sys.stdout,
             stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
             shell=False,
         )
-        os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From 99b3f98d12040a628629583cd57f2a0759808a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:27 +0000
Subject: [PATCH 11/21] fix: do not report the solution of a previous Benders
 run

---
 src/andromede/simulation/benders_decomposed.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69e4965..919ca86 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -206,6 +206,12 @@ class BendersDecomposedProblem:
         should_merge: bool = False,
         show_debug: bool = False,
     ) -> bool:
+        # Results of a previous run must not be taken for those of this one
+        self.solution = None
+        self.is_merged = should_merge
+        output = self.emplacement / self.output_path / "out.json"
+        output.unlink(missing_ok=True)
+
         self.initialise(
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
@@ -213,7 +219,6 @@ class BendersDecomposedProblem:
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From be41968612ec542fb9510ac064e3cea883cca70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 12/21] fix: refuse series files with missing or torn values

A truncated line was completed with NaN, and a zero-filled part of a file
cut its numbers short, both silently.
---
 src/andromede/study/data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..44a5996 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -11,6 +11,7 @@
 # This file is part of the Antares project.
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
+from io import StringIO
 from pathlib import Path
 from typing import Dict, Mapping, Optional
 
@@ -139,7 +140,14 @@ def load_ts_from_txt(
         timeseries_with_extension = timeseries_name + ".txt"
         ts_path = path_to_file / timeseries_with_extension
     try:
-        return pd.read_csv(ts_path, header=None, sep=r"\s+")
+        with ts_path.open(encoding="utf-8", newline="") as file:
+            content = file.read()
+        if "\0" in content:
+            raise ValueError("Unexpected null character")
+        ts_dataframe = pd.read_csv(StringIO(content), header=None, sep=r"\s+")
+        if ts_dataframe.isna().any(axis=None):
+            raise ValueError("Missing values")
+        return ts_dataframe
 
     except FileNotFoundError:
         raise FileNotFoundError(f"File '{timeseries_name}' does not exist")
-- 
2.43.0


From ad5615d3e017932ea63812333ab5f633f672dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 13/21] fix: do not read time-scenario series from their end
 for negative indices

---
 src/andromede/study/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index 44a5996..0f27421 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -203,6 +203,9 @@ class TimeScenarioSeriesData(AbstractDataStructure):
             raise KeyError("Time scenario data requires a scenario index.")
         if self.scenarization:
             scenario = self.scenarization.get_scenario_for_year(scenario)
+        if timestep < 0 or scenario < 0:
+            # Would be counted from the end of the series
+            raise IndexError(f"No value for timestep {timestep}, scenario {scenario}.")
         value = str(self.time_scenario_series.iloc[timestep, scenario])
         return float(value)
 
-- 
2.43.0


From 418d3eff1eb859746fcdfa43192158d90b2a3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 14/21] fix: apply the scenario group of a parameter to that
 parameter only

---
 src/andromede/study/resolve_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..0b6c858 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -216,12 +216,13 @@ def build_scenarized_data_base(
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
     for comp in input_comp.components:
-        scenarization = None
+        comp_scenarization = None
         if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
+            comp_scenarization = scenarizations[comp.scenario_group]
 
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
+            scenarization = comp_scenarization
             if param.scenario_group:
                 scenarization = scenarizations[param.scenario_group]
             param_value = _build_data(
-- 
2.43.0


From e999778dbe9a7b6732a97ecf82cccb37bb30f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:37 +0000
Subject: [PATCH 15/21] fix: refuse scenario builder files with zero-filled
 parts

---
 src/andromede/study/parsing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/parsing.py b/src/andromede/study/parsing.py
index 1f79d80..0fe22db 100644
--- a/src/andromede/study/parsing.py
+++ b/src/andromede/study/parsing.py
@@ -13,6 +13,7 @@
 import argparse
 import os
 from dataclasses import dataclass
+from io import StringIO
 from pathlib import Path
 from typing import List, Optional, TextIO, Union
 
@@ -29,7 +30,11 @@ def parse_yaml_components(input_study: TextIO) -> "InputSystem":
 
 
 def parse_scenario_builder(file: Path) -> pd.DataFrame:
-    sb = pd.read_csv(file, names=("name", "year", "scenario"))
+    with open(file, encoding="utf-8", newline="") as sb_file:
+        content = sb_file.read()
+    if "\0" in content:
+        raise ValueError(f"Unexpected null character in '{file}'")
+    sb = pd.read_csv(StringIO(content), names=("name", "year", "scenario"))
     sb.rename(columns={0: "name", 1: "year", 2: "scenario"})
     return sb
 
-- 
2.43.0


From 37189585d77c616695bbe2f4ad22428f56679a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:37 +0000
Subject: [PATCH 16/21] fix: do not share preprocessed binding constraint
 values between conversions

---
 .../src/data_preprocessing/binding_constraints.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index 0f8b527..6e5663f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -35,10 +35,10 @@ DataType = Union[ThermalData, TimeseriesData, BindingConstraintData]
 
 
 class BindingConstraintsPreprocessing:
-    preprocessed_values: dict[str, float] = {}
     id: Optional[str] = None
 
     def __init__(self, study: Study):
+        self.preprocessed_values: dict[str, float] = {}
         self.study = study
         self.study_path: Path = study.service.config.study_path  # type: ignore
 
-- 
2.43.0


From ff76e3b80bd8dc458519f2c9a164848eb97bca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:03 +0000
Subject: [PATCH 17/21] fix: convert the batteries of every area, and report
 missing files

---
 .../input_converter/src/converter.py          | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..9885585 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,40 +615,41 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
-                data_with_area: dict = self._match_area_pattern(bc_data, area.id)
-                bcp = BindingConstraintsPreprocessing(self.study)
-
-                components.append(
-                    InputComponent(
-                        id=data_with_area["component"]["id"],
-                        model=data_with_area["model"],
-                        parameters=[
-                            InputComponentParameter(
-                                id=str(param.get("id")),
-                                time_dependent=bool(param.get("time-dependent")),
-                                scenario_dependent=bool(
-                                    param.get("scenario-dependent")
-                                ),
-                                value=bcp.convert_param_value(
-                                    param.get("id"), param.get("value")
-                                ),
-                            )
-                            for param in data_with_area["component"]["parameters"]
-                        ],
+        for area in valid_areas.values():
+            data_with_area: dict = self._match_area_pattern(bc_data, area.id)
+            bcp = BindingConstraintsPreprocessing(self.study)
+
+            try:
+                parameters = [
+                    InputComponentParameter(
+                        id=str(param.get("id")),
+                        time_dependent=bool(param.get("time-dependent")),
+                        scenario_dependent=bool(param.get("scenario-dependent")),
+                        value=bcp.convert_param_value(
+                            param.get("id"), param.get("value")
+                        ),
                     )
+                    for param in data_with_area["component"]["parameters"]
+                ]
+            except KeyError:
+                # The objects of the template do not exist in this area
+                continue
+
+            components.append(
+                InputComponent(
+                    id=data_with_area["component"]["id"],
+                    model=data_with_area["model"],
+                    parameters=parameters,
                 )
-                connections.append(
-                    InputPortConnections(
-                        component1=data_with_area["component"]["id"],
-                        port1="injection_port",
-                        component2=area.id,
-                        port2="balance_port",
-                    )
+            )
+            connections.append(
+                InputPortConnections(
+                    component1=data_with_area["component"]["id"],
+                    port1="injection_port",
+                    component2=area.id,
+                    port2="balance_port",
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            )
 
         return components, connections
 
-- 
2.43.0


From e969bc9ce33e8d6e81ca893a250c771f58c2eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 18/21] fix: resolve the dependencies of a library in the order
 they are declared

---
 src/andromede/model/resolve_library.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..e568a83 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -86,7 +86,9 @@ def resolve_library(
                 output_lib_dict, treated_lib_ids, cur_yaml_lib, current_lib
             )
 
-            remaining_dependencies = set(cur_yaml_lib.dependencies) - treated_lib_ids
+            remaining_dependencies = [
+                d for d in cur_yaml_lib.dependencies if d not in treated_lib_ids
+            ]
 
             if remaining_dependencies:
                 _add_dependencies_to_stack(import_stack, remaining_dependencies)
@@ -110,9 +112,9 @@ def _add_resolved_dependent_port_types_to_current_lib(
     cur_yaml_lib: InputLibrary,
     current_lib: Library,
 ) -> None:
-    done_dependencies = set(cur_yaml_lib.dependencies) & treated_lib_ids
-    for done_lib in done_dependencies:
-        current_lib.port_types.update(output_lib_dict[done_lib].port_types)
+    for dependency in cur_yaml_lib.dependencies:
+        if dependency in treated_lib_ids:
+            current_lib.port_types.update(output_lib_dict[dependency].port_types)
 
 
 def _update_treated_libs_and_import_stack(
@@ -147,9 +149,9 @@ def _resolve_lib(
 
 
 def _add_dependencies_to_stack(
-    import_stack: List[str], remaining_dependencies: Set[str]
+    import_stack: List[str], remaining_dependencies: List[str]
 ) -> None:
-    first_dependency = remaining_dependencies.pop()
+    first_dependency = remaining_dependencies[0]
 
     if first_dependency in import_stack:
         raise Exception("Circular import in yaml libraries")
-- 
2.43.0


From 8aa5a133b33fee164d31d5f8925c4d4175e55f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 19/21] fix: convert links in a defined order

---
 src/andromede/input_converter/src/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 9885585..6d14ae6 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -437,8 +437,9 @@ class AntaresStudyConverter:
         )
 
         # Add links components for each area
+        # Links are read in the order of the file system: sort them
         links = self.study.get_links()
-        for link in links.values():
+        for link in sorted(links.values(), key=lambda l: l.id):
             if f"{link.area_from_id}%{link.area_to_id}" in links_to_exclude:
                 continue
             capacity_direct_path = (
-- 
2.43.0


From 91c01ec3d57029ee45e614b770121ab37eff9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:54 +0000
Subject: [PATCH 20/21] fix: a data source that yields no value fails the build

A hole in a series (NaN) became a NaN coefficient of the built problem.
---
 src/andromede/simulation/optimization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0e34d52..d655617 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -67,7 +67,13 @@ def _get_parameter_value(
 ) -> float:
     data = context.database.get_data(component_id, name)
     absolute_timestep = context.block_timestep_to_absolute_timestep(block_timestep)
-    return data.get_value(absolute_timestep, scenario, context.tree_node)
+    value = data.get_value(absolute_timestep, scenario, context.tree_node)
+    if math.isnan(value):
+        raise ValueError(
+            f"No value for parameter {name} of component {component_id}, "
+            f"timestep {absolute_timestep}, scenario {scenario}."
+        )
+    return value
 
 
 def _make_value_provider(
-- 
2.43.0


From e3b8d1da885686b52f1e9a6df92fdeb6ef0a5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:31 +0000
Subject: [PATCH 21/21] fix: a scenario builder with extra columns is an error

The first columns were taken for an index, and the remaining ones for
the group, the year and the scenario.
---
 src/andromede/study/parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/study/parsing.py b/src/andromede/study/parsing.py
index 0fe22db..28cf8a8 100644
--- a/src/andromede/study/parsing.py
+++ b/src/andromede/study/parsing.py
@@ -35,6 +35,9 @@ def parse_scenario_builder(file: Path) -> pd.DataFrame:
     if "\0" in content:
         raise ValueError(f"Unexpected null character in '{file}'")
     sb = pd.read_csv(StringIO(content), names=("name", "year", "scenario"))
+    if not isinstance(sb.index, pd.RangeIndex):
+        # The first columns would be taken for an index
+        raise ValueError(f"Expect exactly three columns in '{file}'")
     sb.rename(columns={0: "name", 1: "year", 2: "scenario"})
     return sb
 
-- 
2.43.0

