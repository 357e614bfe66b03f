From a33db0b23dbf44aebe1048b2de89e66ba1f724e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 01/58] fix: index sparse einsum partials with a tuple of index
 arrays

A list of index arrays selects along the first axis only, so every sparse
partial_format einsum failed (or picked wrong entries) when linearized.
---
 omtools/comps/einsum_comp_sparse_derivs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..0e2d7dc 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -381,7 +381,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(
+                    partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From e2ede1bfb37456a05adbb32e24056786aeafad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 02/58] fix: look up einsum identity tensors by distinct
 operand

self.I holds one tensor per distinct operand; indexing it by operand
position is off once an operand is repeated before another operand.
---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 0e2d7dc..7500a87 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -348,7 +348,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
-- 
2.43.0


From 158feb847187f558e0dfb430f22d0b70db02e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 03/58] fix: keep the default value of a scalar passed to
 expand

---
 omtools/comps/scalar_expansion_comp.py | 4 +++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..0b98172 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,15 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', types=np.ndarray)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        val = self.options['val']
 
-        self.add_input(in_name)
+        self.add_input(in_name, val=val)
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From 4fe6c39ef158aaeace37971c52edb118876b5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 04/58] fix: remove indirect dependencies in index order

Indices are removed from the back; iterating a set does not guarantee
ascending order, so with more than eight dependencies the wrong
dependency could be dropped.
---
 omtools/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..6ee5f00 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -22,7 +22,7 @@ def remove_indirect_dependencies(node: Variable):
             if index is not None:
                 remove.append(index)
     # remove duplicate indices
-    remove = list(set(remove))
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From 110ae72f24ca77bf1011ccaaa8a8e36607a8770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 05/58] fix: delete unused expressions from the node registry

---
 omtools/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..690c004 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
             if len(node.dependents) == 0:
                 keys.append(name)
         for name in keys:
-            del node[name]
+            del self.nodes[name]
 
         # Compute branch costs and sort branches to get desired sparsity
         # pattern in system jacobian
-- 
2.43.0


From 97c21d80151f58592d33e58722083f86691f291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 06/58] fix: replace leaf nodes without skipping siblings

The dependency list was modified while being iterated, so the dependency
after a replaced one was never visited and could keep a cycle.
---
 omtools/core/implicit_output.py            | 2 +-
 omtools/utils/replace_output_leaf_nodes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..30c5bd3 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -24,7 +24,7 @@ def replace_input_leaf_nodes(
     graphs for residuals so that ``ImplicitComponent`` objects do
     not include subsystems.
     """
-    for dependency in node.dependencies:
+    for dependency in list(node.dependencies):
         if isinstance(dependency, Input):
             if len(dependency.dependencies) > 0:
                 node.remove_dependency_node(dependency)
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..ad27d55 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -12,7 +12,7 @@ def replace_output_leaf_nodes(
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
+    for dependency in list(node.dependencies):
         if dependency is root:
             # replace dependency reference with Input node
             node.remove_dependency_node(dependency)
-- 
2.43.0


From 498658ac2d148123572fc6f7827db35e30ebe432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 07/58] fix: give if_else the shape of its branches

---
 omtools/std/if_else.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..7fda64a 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -20,7 +20,7 @@ class ConditionalComponent(ExplicitComponent):
         self.add_input(condition.name, condition.val)
         self.add_input(expr_true.name, expr_true.val)
         self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
             of=out_name,
@@ -65,6 +65,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 5f9cfc2c7b1eb2a4d431ba948f565dfec88d8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 08/58] fix: derivative of if_else with respect to the taken
 branch is one

---
 omtools/std/if_else.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 7fda64a..12032e4 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -47,10 +47,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
-- 
2.43.0


From 3bce955871d85c057d40274d79ee7dd76ee83398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 09/58] fix: check the operand types of if_else

---
 omtools/std/if_else.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 12032e4..0722f9d 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -59,6 +59,9 @@ def if_else(
     expr_true: Variable,
     expr_false: Variable,
 ):
+    for expr in (condition, expr_true, expr_false):
+        if not isinstance(expr, Variable):
+            raise TypeError(expr, " is not an Variable object")
     if expr_true.shape != expr_false.shape:
         raise ValueError(
             "Variable shapes must be the same for Variable objects for both branches of execution"
-- 
2.43.0


From 2f4aa3ebaf7de3a88f0615cc8ed5e9274f79f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 10/58] fix: raise instead of exiting the process on division
 by zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..2a8cb04 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -65,9 +65,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
             if np.any(inputs[in_name] == 0) and power < 0:
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+                raise ValueError("Cannot raise " + in_name +
+                                 ", which contains zeros, to a negative power")
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From 6e4f271a04505619d8857f72db51e3cb76706eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 11/58] fix: do not modify the coefficient array when computing
 partials

The accumulated value was never used, but multiplied an array coefficient
in place on every linearization.
---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 2a8cb04..3dbe77a 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -75,10 +75,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 19a2e47f48ad7b951fad4784b43f22c2f575cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 12/58] fix: raise each element to its own power for array
 exponents

The exponent array was split into one power per operand, so only its first
entry was used for every element.
---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 omtools/core/variable.py                                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 3dbe77a..cc84a88 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,7 +64,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
                 raise ValueError("Cannot raise " + in_name +
                                  ", which contains zeros, to a negative power")
             outputs[out_name] *= inputs[in_name]**power
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..d589024 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,7 +701,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From f6cfde8022d803dde14d5b7d20ce64a6c3c5741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 13/58] fix: reject unsupported operands of arithmetic
 operators

An operand that is neither an expression, a number nor an array produced an
expression without a component, which silently vanished from the model.
---
 omtools/core/variable.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index d589024..a376d0e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -455,6 +455,9 @@ class ElementwiseAddition(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operands: ", expr1, expr2)
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -522,6 +525,9 @@ class ElementwiseSubtraction(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operands: ", expr1, expr2)
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -591,6 +597,9 @@ class ElementwiseMultiplication(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operands: ", expr1, expr2)
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -662,6 +671,9 @@ class ElementwiseDivision(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operands: ", expr1, expr2)
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -691,7 +703,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -706,9 +718,8 @@ class ElementwisePower(Variable):
             )
 
         else:
-            # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError(expr2, " is not a number or array")
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 89318704108771e8e264f2957a1f93efad2fc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 14/58] fix: accept the name keyword of Variable

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index a376d0e..e3d39e2 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -111,7 +111,7 @@ class Variable():
     def initialize(self, *args, **kwargs):
         for k, v in kwargs.items():
             if k == 'name':
-                self.name = _id
+                self.name = v
             if k == 'shape':
                 self.shape = v
             if k == 'val':
-- 
2.43.0


From 9921593669a113aa11881cc4e5514f4f93b15f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 15/58] fix: declare the type, not the default, of the SecComp
 val option

---
 omtools/comps/seccomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/seccomp.py b/omtools/comps/seccomp.py
index ea787e4..dc95691 100644
--- a/omtools/comps/seccomp.py
+++ b/omtools/comps/seccomp.py
@@ -21,7 +21,7 @@ class SecComp(ExplicitComponent):
         self.options.declare('in_name')
         self.options.declare('out_name')
         self.options.declare('shape')
-        self.options.declare('val', np.ndarray)
+        self.options.declare('val', types=np.ndarray)
 
     def setup(self):
         in_name = self.options['in_name']
-- 
2.43.0


From 524be3a6dd1aaea5ed723e88d3ea8368199832ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 16/58] fix: make matmat expressions and components agree on
 the output shape

The expression advertised (m, 1) while the component computed (m,).
---
 omtools/comps/matmat_comp.py |  6 +-----
 omtools/std/matmat.py        | 11 +++++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..8dfa27b 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -35,11 +35,7 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
-            output_shape = (in_shapes[0][0], in_shapes[1][1])
-
-        else:
-            output_shape = (in_shapes[0][0], )
+        output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         self.add_output(
             out_name,
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..399ed5c 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,4 +1,5 @@
 from omtools.comps.matmat_comp import MatMatComp
+from omtools.comps.matvec_comp import MatVecComp
 from omtools.core.variable import Variable
 from typing import List
 import numpy as np
@@ -37,15 +38,13 @@ def matmat(mat1, mat2):
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
-        mat2_shape = (mat2.shape[0], 1)
-
-        out.build = lambda: MatMatComp(
+        out.build = lambda: MatVecComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
-            in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_shapes=[mat1.shape, mat2.shape],
+            in_vals=[mat1.val, mat2.val],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 7950f336c11a4a3dc6b763210371055fec237c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 17/58] fix: average over several axes

A tuple of axes indexes the one-dimensional shape array as a single
multidimensional index.
---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From b2cefa5d06e290cb57bfba7ef91b5810c6862c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 18/58] fix: accept negative axes in cross

---
 omtools/std/cross.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..4d4f548 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -34,6 +34,9 @@ def cross(in1, in2, axis: int):
         raise Exception(
             "The specified axis must correspond to the value of 3 in shape")
 
+    if axis < 0:
+        axis += len(in1.shape)
+
     out.build = lambda: CrossProductComp(
         shape=in1.shape,
         in1_name=in1.name,
-- 
2.43.0


From 9489d028fe90af3687798e9931dafbfd5e280642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 19/58] fix: keep expressions in the order they were created

Removing duplicates with a set ordered dependencies by object address, so
the execution order of a model changed from run to run.
---
 omtools/core/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index e3d39e2..a9fc8a8 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -218,7 +218,7 @@ class Variable():
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
-        self.dependents = list(set(self.dependents))
+        self.dependents = list(dict.fromkeys(self.dependents))
 
     def add_dependency_node(self, dependency):
         """
@@ -365,7 +365,7 @@ class Variable():
         """
         Remove duplicate dependencies. Used when adding a dependency.
         """
-        self.dependencies = list(set(self.dependencies))
+        self.dependencies = list(dict.fromkeys(self.dependencies))
 
     def remove_dependency_node(self, candidate):
         """
-- 
2.43.0


From b2654ddd6ef41b7927cf89bcc2cce991059de492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 20/58] fix: allow subclasses that inherit setup

---
 omtools/comps/implicit_component.py | 3 ++-
 omtools/core/group.py               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..5f7fe29 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -125,7 +125,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 690c004..d4d2632 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -124,7 +124,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
-- 
2.43.0


From 0c2d16dfab43337640e4b4ea57895c78c63c00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 21/58] fix: index expressions whose default value is a scalar

Expressions other than inputs and outputs store a default value of shape
(1,) for any shape, so the indexed expression failed or had a wrong shape.
---
 omtools/core/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index a9fc8a8..dad6f78 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -145,7 +145,7 @@ class Variable():
     ):
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +196,8 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = np.broadcast_to(self.val, self.shape)[tuple(
+            [slice(s[0], s[1], s[2]) for s in list(key)])].copy()
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
-- 
2.43.0


From b0f83bdefecff6fc1366077a90d3313f7042f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 22/58] fix: check the shape of expressions that define an
 output

---
 omtools/core/explicit_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..2238327 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -69,6 +69,9 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
+        if expr.shape != self.shape:
+            raise ValueError("Shape of expression " + repr(expr) +
+                             " does not match shape of output " + self.name)
         self.defined = True
 
         self.add_dependency_node(expr)
-- 
2.43.0


From 19cbcc9bc271176a7e2d91444500710e9c730f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 23/58] fix: start outputs of define from their declared value

The value given to create_output is the starting point of an iterative
solution, but never reached the component.
---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..62a795e 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1., types=(float, np.ndarray))
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 2238327..b6d8333 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -84,6 +84,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From 1f8c7dc9523963b5956f55efdb3e6eeccddfbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 24/58] fix: connect indexed assignments by the final
 expression name

register_output renames an expression; an assignment made before that kept
the old name and read a default value instead of the expression.
---
 omtools/core/explicit_output.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index b6d8333..a87f3da 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -146,12 +146,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr in self._tgt_indices.keys():
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -161,10 +161,14 @@ class ExplicitOutput(Output):
             raise ValueError("Indices used for assignment must not overlap")
 
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={
+                e.name: indices
+                for e, indices in self._tgt_indices.items()
+            },
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: val
+                  for e, val in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From 3774d49e76a2032f564814359b8e471fa765b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 25/58] fix: reject negative integer indices when they are
 assigned

They passed the range and overlap checks.
---
 omtools/core/explicit_output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index a87f3da..57be80b 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -142,7 +142,8 @@ class ExplicitOutput(Output):
         tgt_indices = np.array(tgt_indices).flatten()
 
         # Check size
-        if np.amax(tgt_indices) >= np.prod(self.shape):
+        if np.amin(tgt_indices) < 0 or np.amax(tgt_indices) >= np.prod(
+                self.shape):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-- 
2.43.0


From f23fbc1fa79353095ded8cc5d15500e1f46043fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 26/58] fix: reject indexed assignment to an output that is
 already defined

It silently replaced the expression given to define.
---
 omtools/core/explicit_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 57be80b..40ef6a2 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -94,6 +94,9 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError("Variable for output " + self.name +
+                             " is already defined")
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From 1016301833641b222cce7030b1ae03cd91cf999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 27/58] fix: check the shape of residuals

---
 omtools/core/implicit_output.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 30c5bd3..263f7d3 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -88,6 +88,10 @@ class ImplicitOutput(Output):
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
 
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual " + repr(residual_expr) +
+                             " does not match shape of output " + self.name)
+
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
         residual_expr.is_residual = True
@@ -134,6 +138,10 @@ class ImplicitOutput(Output):
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
 
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual " + repr(residual_expr) +
+                             " does not match shape of output " + self.name)
+
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
         residual_expr.is_residual = True
-- 
2.43.0


From 85093d151ac5e56184af9d1e792c1fdab18504eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 28/58] fix: keep the brackets of every implicit output

---
 omtools/core/implicit_output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 263f7d3..3e19935 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -162,7 +162,8 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From d61df912e890dcf18df2bb49e976573d7b185ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 29/58] fix: start implicit outputs from their declared value

The component output started from the default value of the residual, and
bracketed outputs did not record their value at all.
---
 omtools/comps/implicit_component.py | 7 ++-----
 omtools/core/implicit_output.py     | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 5f7fe29..31dc6ec 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
@@ -105,10 +105,7 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
+                self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 3e19935..56c0b55 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -164,6 +164,7 @@ class ImplicitOutput(Output):
         self.group.res_out_map[residual_expr.name] = self.name
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
+        self.group.out_vals[self.name] = self.val
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From 63dc9480c3366901103261096e0ac868133fa5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 30/58] fix: honor the maxiter argument of ImplicitComponent

---
 omtools/comps/implicit_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 31dc6ec..fba3f21 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -156,7 +156,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
-- 
2.43.0


From 096676cff0e0db5d11ce18ca09e92551bae88f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 31/58] fix: bisect only the implicit outputs that have
 brackets

---
 omtools/comps/implicit_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index fba3f21..a7ac908 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -204,7 +204,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and out_name in self.group.brackets_map[
+                        0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
-- 
2.43.0


From 48d7fdb15c4b19de85fa4cebe1a80645d971ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 32/58] fix: linearize residuals at the given inputs and
 outputs

Totals were computed without running the internal model on the new values.
---
 omtools/comps/implicit_component.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index a7ac908..d76e4a9 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -234,9 +234,10 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
     def linearize(self, inputs, outputs, jacobian):
         self._set_values(inputs, outputs)
-        in_exprs = set()
-        for inputs in self.all_inputs.values():
-            in_exprs = in_exprs.union(inputs)
+        self.prob.run_model()
+        in_exprs = dict()
+        for residual_inputs in self.all_inputs.values():
+            in_exprs.update(dict.fromkeys(residual_inputs))
         res_names = list(self.group.res_out_map.keys())
         out_names = list(self.all_inputs.keys())
 
-- 
2.43.0


From 288711a511c596c8893ce807d54f4191d3e4b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 33/58] fix: declare implicit component inputs in a fixed order

---
 omtools/comps/implicit_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d76e4a9..7607fcb 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -49,7 +49,8 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 # inputs for this residual only
-                in_exprs = set(collect_input_exprs([], res_expr, res_expr))
+                in_exprs = list(
+                    dict.fromkeys(collect_input_exprs([], res_expr, res_expr)))
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
 
-- 
2.43.0


From 124f8a7a52f6886a3939737339759a48fd74ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 34/58] fix: allow residuals of an implicit component to share
 inputs

---
 omtools/comps/implicit_component.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7607fcb..3621ed4 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,6 +43,9 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        # names of inputs added so far
+        in_names = []
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
@@ -69,11 +72,14 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        # residuals may share inputs
+                        if in_expr.name not in in_names:
+                            in_names.append(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
-- 
2.43.0


From 67ddb0ffdc1fbf45dd54c3e79f2c4d6eaf49af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 35/58] fix: check that operands of sum and average have the
 same shape

max and min already do; sum and average silently stretched the smaller
operand to the shape of the last one.
---
 omtools/std/average.py | 4 ++++
 omtools/std/sum.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..7c60b82 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -28,6 +28,10 @@ def average(*operands: List[Variable], axes=None):
             raise TypeError(expr, " is not an Variable object")
         out.add_dependency_node(expr)
 
+    for expr in operands:
+        if expr.shape != operands[0].shape:
+            raise Exception("The shapes of the inputs must match!")
+
     if axes == None:
         if len(operands) == 1:
             out.build = lambda: SingleTensorAverageComp(
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..b36558b 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -26,6 +26,10 @@ def sum(*summands: List[Variable], axes=None):
             raise TypeError(expr, " is not an Variable object")
         out.add_dependency_node(expr)
 
+    for expr in summands:
+        if expr.shape != summands[0].shape:
+            raise Exception("The shapes of the inputs must match!")
+
     if axes == None:
         if len(summands) == 1:
             out.build = lambda: SingleTensorSumComp(
-- 
2.43.0


From f83fc43e77f15470b405680dcb8cedac57e85ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 36/58] fix: compute partials of max, min and pnorm at the
 given inputs

They were computed by compute and stored on the component, so linearizing
at inputs that had not been evaluated returned stale derivatives.
---
 omtools/comps/axiswise_max_comp.py            | 24 ++++++++++++++-----
 omtools/comps/axiswise_min_comp.py            | 24 ++++++++++++++-----
 omtools/comps/scalar_extremum_comp.py         | 24 +++++++++++--------
 .../comps/vectorized_axiswise_pnorm_comp.py   |  5 ++--
 omtools/comps/vectorized_pnorm_comp.py        |  5 ++--
 5 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..8930799 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -74,6 +74,23 @@ class AxisMaxComp(ExplicitComponent):
         result = g_max + 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -82,12 +99,7 @@ class AxisMaxComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..4d32554 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -73,6 +73,23 @@ class AxisMinComp(ExplicitComponent):
         result = -g_max - 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = -inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -81,12 +98,7 @@ class AxisMinComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..120586f 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -66,15 +66,6 @@ class ScalarExtremumComp(ExplicitComponent):
         else:
             outputs[out_name] = result
 
-        dsum_dg = rho * exponents
-        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
-        dKS_dg = dKS_dsum * dsum_dg
-
-        self.dKS_dg = dKS_dg
-
-        # if lower_flag:
-        #     self.dKS_dg = -self.dKS_dg
-
     def compute_partials(self, inputs, partials):
         """
         Compute sub-jacobian parts. The model is assumed to be in an unscaled state.
@@ -87,7 +78,20 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        lower_flag = self.options['lower_flag']
+        rho = self.options['rho']
+
+        if lower_flag:
+            g_max = np.max(-1.0 * inputs[in_name])
+            g_diff = -1.0 * inputs[in_name] - g_max
+        else:
+            g_max = np.max(inputs[in_name])
+            g_diff = inputs[in_name] - g_max
+
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents)
+
+        partials[out_name, in_name] = (exponents / summation).flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..1ce6489 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -85,7 +85,7 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
-        self.outputs = outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
                                                   axis=axis)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
@@ -94,8 +94,9 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        norm = np.sum(inputs[in_name]**pnorm_type, axis=axis)**(1 / pnorm_type)
         partials[out_name, in_name] = np.einsum(
-            self.operation, self.outputs**(1 - pnorm_type),
+            self.operation, norm**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
 
 
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..9f03326 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,7 +47,7 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
+        outputs[out_name] = np.linalg.norm(
             inputs[in_name].flatten(), ord=pnorm_type)
 
     def compute_partials(self, inputs, partials):
@@ -55,7 +55,8 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        partials[out_name, in_name] = self.outputs**(
+        norm = np.linalg.norm(inputs[in_name].flatten(), ord=pnorm_type)
+        partials[out_name, in_name] = norm**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
 
-- 
2.43.0


From 32e9d9d516d1d16a09b82c7b39d32263998e9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 37/58] fix: allow division of an expression by an array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index dad6f78..9864607 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -657,7 +657,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From ff0ffd9caf338e97606d058b1183579cadca7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 38/58] fix: normalize negative axes of inner product

---
 omtools/comps/tensor_inner_product_comp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/comps/tensor_inner_product_comp.py b/omtools/comps/tensor_inner_product_comp.py
index 0f679e7..f4d606d 100644
--- a/omtools/comps/tensor_inner_product_comp.py
+++ b/omtools/comps/tensor_inner_product_comp.py
@@ -29,6 +29,13 @@ class TensorInnerProductComp(ExplicitComponent):
         new_in0_shape = np.delete(list(in_shapes[0]), axes[0])
         new_in1_shape = np.delete(list(in_shapes[1]), axes[1])
 
+        # The partials have more axes than the inputs, so negative axes,
+        # which count from the last axis, must be made nonnegative
+        self.options['axes'] = (
+            np.mod(axes[0], len(in_shapes[0])).tolist(),
+            np.mod(axes[1], len(in_shapes[1])).tolist(),
+        )
+
         if out_shape == None:
             out_shape = tuple(np.append(new_in0_shape, new_in1_shape))
 
-- 
2.43.0


From 08344bd0736c755949094f22e9715cf3c291163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 39/58] fix: if_else declares the shapes of its inputs

---
 omtools/std/if_else.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 0722f9d..202013a 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,9 +17,9 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
+        self.add_input(condition.name, shape=condition.shape, val=condition.val)
+        self.add_input(expr_true.name, shape=expr_true.shape, val=expr_true.val)
+        self.add_input(expr_false.name, shape=expr_false.shape, val=expr_false.val)
         self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
-- 
2.43.0


From 270218ba2c33e3d415078ab64cb54a903e4b57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 40/58] fix: derivative of sech failed for operands of more
 than one dimension

---
 omtools/comps/sechcomp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..839fba6 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,8 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (-1.0 * np.tanh(inputs[in_name]) *
+                                       (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 45f38b2e10023e0ecf86caa8da41c740f3e3e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 41/58] fix: sparse einsum paired operands with the wrong index
 lists after a dense one

---
 omtools/comps/einsum_comp_sparse_derivs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 7500a87..1b65b4f 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,9 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry for each operand
+                self.partial_indices_list.append(None)
+                self.flattened_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
-- 
2.43.0


From b7772ed73a70f2083601f7eb963e12934169c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 42/58] fix: residuals that depend on several implicit outputs

---
 omtools/comps/implicit_component.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 3621ed4..7af6fab 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -46,14 +46,20 @@ def _post_setup(func: Callable) -> Callable:
         # names of inputs added so far
         in_names = []
 
+        # names of all implicit outputs; residuals may depend on any
+        out_names = list(self.group.res_out_map.values())
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 # inputs for this residual only
-                in_exprs = list(
-                    dict.fromkeys(collect_input_exprs([], res_expr, res_expr)))
+                in_exprs = [
+                    in_expr for in_expr in dict.fromkeys(
+                        collect_input_exprs([], res_expr, res_expr))
+                    if in_expr.name not in out_names
+                ]
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
 
@@ -69,7 +75,7 @@ def _post_setup(func: Callable) -> Callable:
                     val=self.group.out_vals[out_name],
                 )
 
-                # add inputs, declare partials (out wrt in)
+                # add inputs
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
                         # residuals may share inputs
@@ -80,16 +86,9 @@ def _post_setup(func: Callable) -> Callable:
                                 shape=in_expr.shape,
                                 val=in_expr.val,
                             )
-                        self.declare_partials(
-                            of=out_name,
-                            wrt=in_expr.name,
-                        )
-
-                # residual wrt output
-                self.declare_partials(
-                    of=out_name,
-                    wrt=out_name,
-                )
+
+                # residuals may be coupled through the outputs
+                self.declare_partials(of=out_name, wrt='*')
 
                 # set response and design variables to compute derivatives
                 # treat inputs and output as inputs to internal model
@@ -260,7 +259,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 for in_expr in self.all_inputs[out_name]:
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
-                jacobian[out_name, out_name] = jac[res_name, out_name]
+                for wrt_name in out_names:
+                    jacobian[out_name, wrt_name] = jac[res_name, wrt_name]
 
                 self.derivs[out_name] = np.diag(
                     jac[res_name, out_name]).reshape(res_expr.shape)
-- 
2.43.0


From 1c4a363c0cc79749ca6214e78f173dc4cd230a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 43/58] fix: solve_linear solves the whole linear system and
 does not accumulate

---
 omtools/comps/implicit_component.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7af6fab..45b1434 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -261,15 +261,22 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                                                            in_expr.name]
                 for wrt_name in out_names:
                     jacobian[out_name, wrt_name] = jac[res_name, wrt_name]
-
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                    self.derivs[out_name, wrt_name] = jac[res_name, wrt_name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        # residuals may couple implicit outputs, and elements of each
+        out_names = list(self.all_inputs.keys())
+        derivs = np.block([[self.derivs[of, wrt] for wrt in out_names]
+                           for of in out_names])
+        if mode == 'fwd':
+            x, b = d_outputs, d_residuals
+        else:
+            x, b = d_residuals, d_outputs
+            derivs = derivs.T
+        sol = np.linalg.solve(
+            derivs, np.concatenate([b[name].flatten() for name in out_names]))
+        i = 0
+        for name in out_names:
+            n = b[name].size
+            x[name] = sol[i:i + n].reshape(b[name].shape)
+            i += n
-- 
2.43.0


From be8ff10be7a65e13f5fa15cb7a15a6dec9a2d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 44/58] fix: subtract integer arrays of every type

The constant of a difference was negated in its own type, so an array of
unsigned integers wrapped around (x - uint8(1) added 255) and an array of
truth values was refused.
---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 9864607..3b429b1 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -522,7 +522,7 @@ class ElementwiseSubtraction(Variable):
                 out_name=self.name,
                 in_names=[expr1.name],
                 coeffs=1,
-                constant=-expr2,
+                constant=-1. * expr2,
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From 5e9ea5c600fcb218d0b3cea2ce2f4a76d671cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 45/58] fix: visit shared expressions once when sorting the
 graph

add_fwd_edges and compute_dag_cost descended once for every path, so the
time to build a model doubled with each expression used twice.
---
 omtools/core/variable.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 3b429b1..1e5a750 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -131,7 +131,7 @@ class Variable():
         self.dependents: list = []
         self.build = None
         self.times_visited = 0
-        self._dag_cost = 1
+        self._dag_cost = None
         self.initialize(*args, **kwargs)
         self._getitem_called = False
         self._decomp = None
@@ -214,8 +214,11 @@ class Variable():
 
     def add_fwd_edges(self):
         for dependency in self.dependencies:
+            # descend only once from nodes used more than once
+            visited = len(dependency.dependents) > 0
             dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+            if not visited:
+                dependency.add_fwd_edges()
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -337,8 +340,12 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        # nodes used more than once have been visited before
+        if self._dag_cost is None:
+            cost = 1
+            for dependency in self.dependencies:
+                cost += dependency.compute_dag_cost()
+            self._dag_cost = cost
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
-- 
2.43.0


From 89d91613111bfe863027332ec8394825c52b60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 46/58] fix: visit shared expressions once when looking for
 leaves

replace_output_leaf_nodes and collect_input_exprs descended once for every
path, so the time to define an implicit output doubled with each expression
used twice.
---
 omtools/utils/collect_input_exprs.py       | 9 +++++++--
 omtools/utils/replace_output_leaf_nodes.py | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..11ab281 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -8,15 +8,20 @@ def collect_input_exprs(
     inputs: list,
     root: Variable,
     expr: Variable,
+    visited: set = None,
 ) -> List[Variable]:
     """
     Collect input nodes so that the resulting ``ImplicitComponent`` has
     access to inputs outside of itself.
     """
+    # nodes used more than once are visited once
+    if visited is None:
+        visited = set()
+    visited.add(expr)
     for dependency in expr.dependencies:
-        if dependency.name != root.name:
+        if dependency.name != root.name and dependency not in visited:
             if isinstance(dependency, Input) == True and len(
                     dependency.dependencies) == 0:
                 inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+            inputs = collect_input_exprs(inputs, root, dependency, visited)
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index ad27d55..c590558 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -7,14 +7,20 @@ def replace_output_leaf_nodes(
     root: Output,
     node: Variable,
     leaf: Input,
+    visited: set = None,
 ):
     """
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
+    # nodes used more than once are visited once
+    if visited is None:
+        visited = set()
+    visited.add(node)
     for dependency in list(node.dependencies):
         if dependency is root:
             # replace dependency reference with Input node
             node.remove_dependency_node(dependency)
             node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+        if dependency not in visited:
+            replace_output_leaf_nodes(root, dependency, leaf, visited)
-- 
2.43.0


From 864a2c9a0237d128c577059e649e13917f1e8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 47/58] fix: build the same model when a problem is set up
 again

OpenMDAO removes the subsystems of a group when it sets up a problem
again, and runs setup again.  The expressions kept state of the previous
setup (nodes visited, dependents, dependencies removed), so the second
setup built no components or raised an error, and implicit components
kept the residuals defined before.
---
 omtools/comps/implicit_component.py | 13 +++++++++++--
 omtools/core/group.py               | 20 +++++++++++++++++++-
 omtools/core/variable.py            | 16 ++++++++++++++++
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 45b1434..55f02b3 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,6 +37,9 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
+        # define residuals anew when the component is set up again
+        if len(self.all_outputs) > 0:
+            self._clear_definitions()
         func(self)
         # setup internal problem
         g = self.group
@@ -156,14 +159,20 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._clear_definitions()
+        self.maxiter = maxiter
+        self.n2 = n2
+
+    def _clear_definitions(self):
+        """
+        Remove all residuals defined so far
+        """
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = maxiter
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index d4d2632..ff2e374 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,11 +35,21 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # Expressions and subsystems defined before setup are part of the
+        # model every time it is set up
+        predefined = list(self._root.dependencies)
+        predefined_subsystem = self._most_recently_added_subsystem
+
         # The user-defined Group.setup() method
         func(self)
 
         # Create a record of all nodes in DAG
+        self.nodes = dict()
         self._root.register_nodes(self.nodes)
+        dependencies = {
+            node: list(node.dependencies)
+            for node in self.nodes.values()
+        }
 
         # Ensure independent variables are at the top of n2 diagram
         for node in self.nodes.values():
@@ -119,6 +129,13 @@ def _post_setup(func: Callable) -> Callable:
             # Cut down on memory consumption
             del expr
 
+        # Leave DAG as it was before setup; OpenMDAO removes the
+        # subsystems added above when the model is set up again
+        for node in dependencies.keys():
+            node.reset(dependencies[node])
+        self._root.reset(predefined)
+        self._most_recently_added_subsystem = predefined_subsystem
+
     return _sort_expressions_and_build_components
 
 
@@ -420,4 +437,5 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
             yield group
         finally:
             group.setup()
-            pass
+            # components remain when OpenMDAO sets up the child group
+            group._root = Variable()
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 1e5a750..9404d60 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -390,6 +390,22 @@ class Variable():
         if index is not None:
             self.remove_dependency_by_index(index)
 
+    def reset(self, dependencies: list):
+        """
+        Set dependencies and undo all other changes to this node due to
+        ``add_fwd_edges``, ``compute_dag_cost``, and
+        ``topological_sort``
+
+        Parameters
+        ----------
+        dependencies: list[Variable]
+            Dependencies of this node
+        """
+        self.dependencies = dependencies
+        self.dependents = []
+        self.times_visited = 0
+        self._dag_cost = None
+
     def print_dag(self, depth=-1, indent=''):
         """
         Print the graph starting at this node (debugging tool)
-- 
2.43.0


From 2fe39b452718e0031536a9116bae19ab49471b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 48/58] fix: keep the values of constant arrays when an
 expression is written

Arrays used in an expression, as a value or as brackets were read when
the model was set up or later, so changing an array after writing the
expression changed the model.
---
 omtools/core/implicit_output.py |  5 +++--
 omtools/core/variable.py        | 15 +++++++++++++++
 omtools/utils/get_shape_val.py  |  3 ++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 56c0b55..15dfad4 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -165,8 +165,9 @@ class ImplicitOutput(Output):
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
         self.group.out_vals[self.name] = self.val
-        self.group.brackets_map[0][self.name] = x1
-        self.group.brackets_map[1][self.name] = x2
+        # copy, so that brackets do not change when the arrays do
+        self.group.brackets_map[0][self.name] = np.copy(x1)
+        self.group.brackets_map[1][self.name] = np.copy(x2)
 
         self.defined = True
 
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 9404d60..c409097 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,16 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def copy_constant(expr):
+    """
+    Copy constant array so that an expression does not change when the
+    array does
+    """
+    if isinstance(expr, np.ndarray):
+        return expr.copy()
+    return expr
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -430,6 +440,7 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -496,6 +507,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -566,6 +578,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -638,6 +651,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -712,6 +726,7 @@ class ElementwisePower(Variable):
     scalar exponent
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
         if isinstance(expr1, Variable):
             self.add_dependency_node(expr1)
         else:
diff --git a/omtools/utils/get_shape_val.py b/omtools/utils/get_shape_val.py
index 57d711d..7b41bb9 100644
--- a/omtools/utils/get_shape_val.py
+++ b/omtools/utils/get_shape_val.py
@@ -25,7 +25,8 @@ def get_shape_val(
     """
     if isinstance(val, Number):
         return shape, val * np.ones(shape)
-    if isinstance(val, list):
+    if isinstance(val, (list, np.ndarray)):
+        # copy, so that value does not change when the array does
         val = np.array(val)
     if isinstance(val, np.ndarray):
         if shape == (1, ):
-- 
2.43.0


From 76f796b74030a81ca02ae93dbbcbbe8e1dccf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 49/58] fix: refuse axes of an inner product whose lengths
 differ when it is written

---
 omtools/std/inner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..26ca2cb 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -39,6 +39,10 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        if not np.array_equal(np.ravel(np.take(expr1.shape, axes[0])),
+                              np.ravel(np.take(expr2.shape, axes[1]))):
+            raise ValueError(
+                "The axes of the inputs must have the same lengths")
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
-- 
2.43.0


From b16eeed517900476b666a86a4ce01f77da407008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 50/58] fix: refuse indices of expand that do not match the
 rank of the shape

---
 omtools/std/expand.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..2f39a45 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -18,6 +18,8 @@ def expand(expr: Variable, shape: tuple, indices=None):
 
     if indices is not None:
         in_indices, out_indices = indices.split('->')
+        if len(out_indices) != len(shape):
+            raise ValueError('Shape or indices is invalid')
         expand_indices = []
         for i in range(len(out_indices)):
             index = out_indices[i]
-- 
2.43.0


From ac840658e87b9de09a61b7dd6fcfb9ea9d67e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 51/58] fix: refuse rotations about an unknown axis when they
 are written

---
 omtools/std/rotmat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/rotmat.py b/omtools/std/rotmat.py
index fb37ffb..379fc6f 100644
--- a/omtools/std/rotmat.py
+++ b/omtools/std/rotmat.py
@@ -18,6 +18,8 @@ def rotmat(expr: Variable, axis: str):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if axis not in ('x', 'y', 'z'):
+        raise ValueError("axis must be 'x', 'y' or 'z'")
     out = Variable()
     out.add_dependency_node(expr)
 
-- 
2.43.0


From 5bd28cbf5c84b4cdbcc6a2924ec59db0eb4fc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 52/58] fix: refuse to reshape to another number of elements
 when it is written

---
 omtools/std/reshape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/reshape.py b/omtools/std/reshape.py
index 9d73f88..5ba5a25 100644
--- a/omtools/std/reshape.py
+++ b/omtools/std/reshape.py
@@ -1,5 +1,6 @@
 from omtools.comps.reshape_comp import ReshapeComp
 from omtools.core.variable import Variable
+import numpy as np
 
 
 def reshape(expr: Variable, new_shape: tuple):
@@ -16,6 +17,8 @@ def reshape(expr: Variable, new_shape: tuple):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if np.prod(expr.shape) != np.prod(new_shape):
+        raise ValueError("The new shape must have as many elements as the old")
     out = Variable()
     out.shape = new_shape
     out.add_dependency_node(expr)
-- 
2.43.0


From bbe1e3cfaf99d8aef8ef6a16bee1442b6399952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 53/58] fix: refuse conditions with several elements when they
 are written

---
 omtools/std/if_else.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 202013a..a86b153 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -62,6 +62,8 @@ def if_else(
     for expr in (condition, expr_true, expr_false):
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    if np.prod(condition.shape) != 1:
+        raise ValueError("The condition must have one element")
     if expr_true.shape != expr_false.shape:
         raise ValueError(
             "Variable shapes must be the same for Variable objects for both branches of execution"
-- 
2.43.0


From e66bae37dddd9d18ef871a1f96e8f05125f20139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 54/58] fix: refuse repeated axes of sum, average and pnorm
 when they are written

---
 omtools/std/average.py | 2 ++
 omtools/std/pnorm.py   | 3 +++
 omtools/std/sum.py     | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 7c60b82..bce3d0d 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -50,6 +50,8 @@ def average(*operands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
+        if len(output_shape) != len(expr.shape) - len(axes):
+            raise ValueError("Axes must not be repeated")
         out.shape = tuple(output_shape)
 
         if len(operands) == 1:
diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 659133f..50d03e8 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -43,6 +43,9 @@ def pnorm(expr, pnorm_type=2, axis=None):
             )
         else:
             output_shape = np.delete(expr.shape, axis)
+            if isinstance(axis, tuple) and len(
+                    output_shape) != len(expr.shape) - len(axis):
+                raise ValueError("Axes must not be repeated")
             out.shape = tuple(output_shape)
 
             out.build = lambda: VectorizedAxisWisePnormComp(
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index b36558b..4ef7ce6 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -48,6 +48,8 @@ def sum(*summands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
+        if len(output_shape) != len(expr.shape) - len(axes):
+            raise ValueError("Axes must not be repeated")
         out.shape = tuple(output_shape)
 
         if len(summands) == 1:
-- 
2.43.0


From 365f593b016761db5f9caebe272466e3ded6cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 55/58] fix: refuse contractions whose subscripts do not fit
 the operands when they are written

---
 omtools/utils/einsum_utils.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..eeb343b 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -7,18 +7,30 @@ def compute_einsum_shape(
 ):
     out_shape = []
 
+    if len(in_shapes) != len(operation_aslist) - 1:
+        raise ValueError("Subscripts do not match the number of operands")
+    lengths = dict()
+    for tensor_rep, in_shape in zip(operation_aslist[:-1], in_shapes):
+        if len(tensor_rep) != len(in_shape):
+            raise ValueError("Subscripts do not match the axes of an operand")
+        for char, length in zip(tensor_rep, in_shape):
+            # An axis of length one is repeated, as in numpy.einsum
+            known = lengths.get(char, 1)
+            if known != length and known != 1 and length != 1:
+                raise ValueError("Axes with the same subscript must have the "
+                                 "same length")
+            lengths[char] = max(known, length)
+    for char in operation_aslist[-1]:
+        if char not in lengths:
+            raise ValueError("Subscript of the output is not that of an operand")
+    if len(set(operation_aslist[-1])) != len(operation_aslist[-1]):
+        raise ValueError("Subscripts of the output must not be repeated")
+
     if operation_aslist[-1] == '' :
         out_shape = (1, )
 
     else:
-        for char in operation_aslist[-1]:
-            for i, tensor_rep in enumerate(operation_aslist[:-1]):
-                if (char in tensor_rep):
-                    shape_ind = tensor_rep.index(char)
-                    out_shape.append(in_shapes[i][shape_ind])
-                    break
-        
-        out_shape = tuple(out_shape)
+        out_shape = tuple(lengths[char] for char in operation_aslist[-1])
     
     return out_shape
 
-- 
2.43.0


From 03fbe29b563638d2072b89cb39457449915d30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:43 +0000
Subject: [PATCH 56/58] fix: declare every derivative of sparse contractions
 with a repeated axis of length one

---
 omtools/comps/einsum_comp_sparse_derivs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 1b65b4f..52a6217 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -191,7 +191,10 @@ class SparsePartialEinsumComp(ExplicitComponent):
             ])] * partial_rank
 
             for loc in locations:
-                if self.surviving_axes_map[loc]:
+                # Note: an axis of length one may be repeated along the output
+                if self.surviving_axes_map[loc] and all(
+                        shape[idx] == self.out_shape[out_idx] for idx, out_idx
+                        in self.surviving_axes_map[loc].items()):
                     self.sparsity_partials[loc] = True
 
             sparse_partial = True
-- 
2.43.0


From e681ab45568c117a7351d9d898447f3cbdc1d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 57/58] fix: forget what setup made subsystems and expressions
 from before it depend on

---
 omtools/core/group.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index ff2e374..5f4fff1 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -39,6 +39,12 @@ def _post_setup(func: Callable) -> Callable:
         # model every time it is set up
         predefined = list(self._root.dependencies)
         predefined_subsystem = self._most_recently_added_subsystem
+        predefined_nodes = dict()
+        self._root.register_nodes(predefined_nodes)
+        predefined_dependencies = {
+            node: list(node.dependencies)
+            for node in predefined_nodes.values()
+        }
 
         # The user-defined Group.setup() method
         func(self)
@@ -50,6 +56,7 @@ def _post_setup(func: Callable) -> Callable:
             node: list(node.dependencies)
             for node in self.nodes.values()
         }
+        dependencies.update(predefined_dependencies)
 
         # Ensure independent variables are at the top of n2 diagram
         for node in self.nodes.values():
-- 
2.43.0


From c01c43290996a54f92e29a55b057c315409d6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:19 +0000
Subject: [PATCH 58/58] fix: refuse constant arrays that cannot be repeated to
 the shape of the expression

---
 omtools/core/variable.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index c409097..0764a0d 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -30,6 +30,18 @@ def copy_constant(expr):
     return expr
 
 
+def check_constant(expr, constant):
+    """
+    Check that a constant array can be repeated to the shape of the
+    expression it is combined with
+    """
+    if isinstance(expr, Variable) and isinstance(constant, np.ndarray):
+        if np.broadcast_shapes(expr.shape,
+                               constant.shape) != tuple(expr.shape):
+            raise ValueError("Shapes for expression " + repr(expr) +
+                             " and constant array do not match")
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -441,6 +453,8 @@ class ElementwiseAddition(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
+        check_constant(expr1, expr2)
+        check_constant(expr2, expr1)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -508,6 +522,8 @@ class ElementwiseSubtraction(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
+        check_constant(expr1, expr2)
+        check_constant(expr2, expr1)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -579,6 +595,8 @@ class ElementwiseMultiplication(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
+        check_constant(expr1, expr2)
+        check_constant(expr2, expr1)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -652,6 +670,8 @@ class ElementwiseDivision(Variable):
     """
     def initialize(self, expr1, expr2):
         expr1, expr2 = copy_constant(expr1), copy_constant(expr2)
+        check_constant(expr1, expr2)
+        check_constant(expr2, expr1)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
-- 
2.43.0

