From e9f17df0d1a261574f8ba47f85c990216e57909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 01/56] fix: flatten the partials of arcsin and sech for
 multi-dimensional inputs

---
 omtools/comps/arcsincomp.py | 3 ++-
 omtools/comps/sechcomp.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..744686d 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (1.0 /
+                                      np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..bfb958c 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,9 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (-1.0 * np.tanh(inputs[in_name]) *
+                                       (1.0 / np.cosh(inputs[in_name]))
+                                       ).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From cd19dc19f8161aca3689c7f04d28de0ffb52ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 02/56] fix: average over more than one axis

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From 05c99069777bd67144b3ec4c9de1635e608d0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 03/56] fix: einsum derivatives with repeated operands and with
 sparse partials

---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..f7faa4a 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,9 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry per distinct input
+                self.partial_indices_list.append(None)
+                self.flattened_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -348,7 +351,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
@@ -381,7 +384,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(
+                    partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From 3971837ed24b70cc3dbde5b442635fa9d88ea90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 04/56] fix: matmat by a vector or a one-column matrix has the
 shape its component computes

---
 omtools/comps/matmat_comp.py | 10 +++++-----
 omtools/std/matmat.py        | 10 ++++++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..e97423f 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -25,6 +25,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
         self.options.declare('in_vals', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
 
     def setup(self):
         in_names = self.options['in_names']
@@ -35,12 +36,10 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        output_shape = self.options['out_shape']
+        if output_shape is None:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
-        else:
-            output_shape = (in_shapes[0][0], )
-
         self.add_output(
             out_name,
             shape=output_shape,
@@ -68,7 +67,8 @@ class MatMatComp(ExplicitComponent):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
 
-        outputs[out_name] = inputs[in_names[0]] @ inputs[in_names[1]]
+        outputs[out_name] = (inputs[in_names[0]] @ inputs[in_names[1]]
+                             ).reshape(outputs[out_name].shape)
 
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..8c10043 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -34,10 +34,12 @@ def matmat(mat1, mat2):
             out_name=out.name,
             in_shapes=[mat1.shape, mat2.shape],
             in_vals=[mat1.val, mat2.val],
+            out_shape=out.shape,
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        # numpy semantics: the product of a matrix and a vector is a vector
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
@@ -45,7 +47,11 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[
+                mat1.val,
+                (mat2.val * np.ones(mat2.shape)).reshape(mat2_shape)
+            ],
+            out_shape=out.shape,
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 80fd8f9199fd6f60d06c421258ab18a99a609911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 05/56] fix: a zero raised to a negative power raises instead
 of ending the process

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..c6099ab 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,10 +64,11 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
+                raise ZeroDivisionError(
+                    "Input " + in_name +
+                    " has an entry equal to zero raised to a negative power: "
+                    + str(inputs[in_name]))
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From 73f6c924369e1ddb2320f4282dcc1c6519090a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 06/56] fix: computing partials of a product does not modify
 its constant array factor

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index c6099ab..b0fb0c2 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -77,10 +77,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 9119c067ab9ffd83c0c97cffafb280b1f57f7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 07/56] fix: accept numpy scalars as literals in arithmetic

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 +++-
 omtools/comps/linearcombination_comp.py                  | 4 +++-
 omtools/utils/process_options.py                         | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index b0fb0c2..d4615c4 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
@@ -19,7 +21,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                              allow_none=True)
         self.options.declare('coeff',
                              default=1.,
-                             types=(int, float, np.ndarray))
+                             types=(Real, np.ndarray))
         self.options.declare('in_vals', types=list)
 
         self.post_initialize()
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..f08b2b4 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 from openmdao.api import ExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list
@@ -18,7 +20,7 @@ class LinearCombinationComp(ExplicitComponent):
                              allow_none=True)
         self.options.declare('constant',
                              default=0.,
-                             types=(int, float, np.ndarray))
+                             types=(Real, np.ndarray))
         self.options.declare('in_vals', types=list)
 
     def setup(self):
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index c257204..d6128fb 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 
 name_types = (str, list)
@@ -14,11 +16,11 @@ def get_names_list(names):
     return names
 
 
-scalar_types = (int, float, list, np.ndarray)
+scalar_types = (Real, list, np.ndarray)
 
 
 def get_scalars_list(scalars, names):
-    if isinstance(scalars, (int, float)):
+    if isinstance(scalars, Real):
         scalars = [scalars] * len(names)
     elif isinstance(scalars, (list)):
         pass
-- 
2.43.0


From fee8c3f0bb24fc4a5e88367faf7a816750cdf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 08/56] fix: powers with an array exponent or an exponent equal
 to zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 omtools/core/variable.py                                 | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index d4615c4..c332fe8 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -86,7 +86,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # the derivative of x**0 is zero, also where x is zero
+                    b = np.where(np.asarray(power) == 0, 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..d589024 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,7 +701,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From 220efb4a9f78fe3be30f8e8aad7fdb7f5e0ef7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 09/56] fix: division of a variable by a constant array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index d589024..f77d65e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -647,7 +647,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From c8c69d21513b35c9bc9fe819abfdf48d16fb8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 10/56] fix: arithmetic between an expression and itself

---
 .../arithmetic_comps/power_combination_comp.py   | 13 ++++++++++++-
 omtools/comps/linearcombination_comp.py          | 13 ++++++++++++-
 omtools/utils/process_options.py                 | 16 ++++++++++++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index c332fe8..ee69d81 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list
-from omtools.utils.process_options import scalar_types, get_scalars_list
+from omtools.utils.process_options import scalar_types, get_scalars_list, merge_repeated_names
 
 
 class PowerCombinationComp(ArrayExplicitComponent):
@@ -47,6 +47,17 @@ class PowerCombinationComp(ArrayExplicitComponent):
             self.options['powers'] = get_scalars_list(self.options['powers'],
                                                       self.options['in_names'])
 
+        # the same expression may be used as more than one operand
+        (
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        ) = merge_repeated_names(
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        )
+
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
         out_name = self.options['out_name']
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index f08b2b4..75482b2 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -2,7 +2,7 @@ from numbers import Real
 
 import numpy as np
 from openmdao.api import ExplicitComponent
-from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list
+from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list, merge_repeated_names
 
 
 class LinearCombinationComp(ExplicitComponent):
@@ -39,6 +39,17 @@ class LinearCombinationComp(ExplicitComponent):
             self.options['coeffs'] = get_scalars_list(self.options['coeffs'],
                                                       self.options['in_names'])
 
+        # the same expression may be used as more than one operand
+        (
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        ) = merge_repeated_names(
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        )
+
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
         out_name = self.options['out_name']
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index d6128fb..5567da0 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -30,6 +30,22 @@ def get_scalars_list(scalars, names):
     return scalars
 
 
+def merge_repeated_names(names, scalars, vals):
+    """
+    Add up the scalars that belong to the same name, so that each name
+    appears only once
+    """
+    merged = dict()
+    for name, scalar, val in zip(names, scalars, vals):
+        if name in merged:
+            merged[name] = (merged[name][0] + scalar, val)
+        else:
+            merged[name] = (scalar, val)
+
+    return (list(merged), [m[0] for m in merged.values()],
+            [m[1] for m in merged.values()])
+
+
 shape_types = (tuple, list)
 
 
-- 
2.43.0


From 58b34728ac77734884fa49254ff861d310ee429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 11/56] fix: if_else with array branches, its derivatives, and
 expressions playing several roles

---
 omtools/std/if_else.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..9111513 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,17 +17,22 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        # an expression may play more than one role
+        in_exprs = {
+            expr.name: expr
+            for expr in (condition, expr_true, expr_false)
+        }
+        for in_name, expr in in_exprs.items():
+            self.add_input(in_name, shape=expr.shape, val=expr.val)
+        self.add_output(out_name, shape=expr_true.shape)
 
-        self.declare_partials(
-            of=out_name,
-            wrt=[expr_true.name, expr_false.name],
-            rows=np.arange(np.prod(expr_true.shape)),
-            cols=np.arange(np.prod(expr_true.shape)),
-        )
+        for in_name in dict.fromkeys([expr_true.name, expr_false.name]):
+            self.declare_partials(
+                of=out_name,
+                wrt=in_name,
+                rows=np.arange(np.prod(expr_true.shape)),
+                cols=np.arange(np.prod(expr_true.shape)),
+            )
 
     def compute(self, inputs, outputs):
         out_name = self.options['out_name']
@@ -46,12 +51,13 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
+        # only the branch taken contributes
+        partials[out_name, expr_true.name] = 0
+        partials[out_name, expr_false.name] = 0
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
-            partials[out_name, expr_true.name] = 0
+            partials[out_name, expr_false.name] = 1
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
-            partials[out_name, expr_false.name] = 0
+            partials[out_name, expr_true.name] = 1
 
 
 def if_else(
@@ -65,6 +71,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From b0dafc4a125131ea53fc84906cd65c1ce97a8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 12/56] fix: setup of a Group can be inherited and called again

---
 omtools/core/group.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..4a13056 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,8 +35,23 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # The setup method of a derived class calls the setup method of
+        # its base class; build components once, when the former is done
+        if self._in_setup:
+            func(self)
+            return
+
+        # Problem.setup() is called again; start from an empty graph
+        if self._setup_done:
+            self._clear_graph()
+        self._setup_done = True
+
         # The user-defined Group.setup() method
-        func(self)
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
@@ -124,7 +139,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -151,10 +167,18 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
     """
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
+        self.reverse_branch_sorting: bool = False
+        self._in_setup: bool = False
+        self._setup_done: bool = False
+        self._clear_graph()
+
+    def _clear_graph(self):
+        """
+        Forget all expressions
+        """
         self.nodes: dict = {}
         self.input_vals: dict = {}
         self.sorted_builders = []
-        self.reverse_branch_sorting: bool = False
         self._root = Variable()
         self._most_recently_added_subsystem: Subsystem = None
         self.res_out_map: Dict[str, str] = dict()
-- 
2.43.0


From e13df5930f3abdb928203eb011a12526a9be00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 13/56] fix: indexing an expression without a default value of
 its own shape

---
 omtools/core/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index f77d65e..8c7a904 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -143,9 +143,11 @@ class Variable():
         self,
         key: Union[int, slice, Tuple[slice]],
     ):
+        # The default value of an expression need not have its shape
+        val = self.val * np.ones(self.shape)
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=val)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +198,7 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
-- 
2.43.0


From 9833a4fa272b9bd6acdfa46ab50a59ebb485767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 14/56] fix: an expression assigned to indices of an output may
 be registered afterwards

---
 omtools/core/explicit_output.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..dcf9c65 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, Tuple] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -157,10 +157,13 @@ class ExplicitOutput(Output):
             raise ValueError("Indices used for assignment must not overlap")
 
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            # expr may have been registered under another name since
+            expr_indices={e.name: v
+                          for e, v in self._tgt_indices.items()},
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: v
+                  for e, v in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From fd5da92ccdba0a5b63b07226efe10c8aaf4b53d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 15/56] fix: remove the indirect dependencies of a node with
 many dependencies, not others

---
 omtools/core/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..d8fce29 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,9 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices; removing the highest index first leaves
+    # the other indices valid
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From cb6cebc68c95dfd441c735f919389b83fe5bc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 16/56] fix: residuals of one component may share inputs and
 depend on each other

---
 omtools/comps/implicit_component.py  | 34 +++++++++++++++++++---------
 omtools/utils/collect_input_exprs.py |  7 ++++--
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..83b8cdf 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,9 +43,17 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        # Setting up the internal problem removes dependencies of the
+        # root on residuals that other residuals depend on
+        self.residuals = list(g._root.dependencies)
+
+        # Names of inputs added so far; residuals may share inputs, and
+        # depend on the outputs of other residuals
+        in_names = set()
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
-        for res_expr in g._root.dependencies:
+        for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 # inputs for this residual only
@@ -68,11 +76,14 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        if in_expr.name not in in_names.union(
+                                g.res_out_map.values()):
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
+                            in_names.add(in_expr.name)
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
@@ -101,7 +112,7 @@ def _post_setup(func: Callable) -> Callable:
         self.prob.setup()
 
         # set initial values for inputs and output
-        for res_expr in self.group._root.dependencies:
+        for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
@@ -157,18 +168,19 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
+        self.residuals: List[Variable] = []
         self.derivs = dict()
         self.maxiter = 100
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
-        for res_expr in self.group._root.dependencies:
+        for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
                 self.prob[out_name] = outputs[out_name]
                 for in_expr in self.all_inputs[out_name]:
-                    if in_expr.name != out_name:
+                    if in_expr.name not in self.all_outputs:
                         self.prob[in_expr.name] = inputs[in_expr.name]
 
     def setup(self):
@@ -200,7 +212,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             residuals[out_name] = np.array(prob[res_name])
 
     def solve_nonlinear(self, inputs, outputs):
-        for res_expr in self.group._root.dependencies:
+        for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
@@ -246,7 +258,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             wrt=[in_expr.name for in_expr in list(in_exprs)] + out_names,
         )
 
-        for res_expr in self.group._root.dependencies:
+        for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False:
                 res_name = res_expr.name
                 out_name = self.group.res_out_map[res_name]
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..7eed1e6 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -11,11 +11,14 @@ def collect_input_exprs(
 ) -> List[Variable]:
     """
     Collect input nodes so that the resulting ``ImplicitComponent`` has
-    access to inputs outside of itself.
+    access to inputs outside of itself. The outputs of the
+    ``ImplicitComponent`` that are computed from other residuals are
+    leaf nodes, too.
     """
+    from omtools.core.implicit_output import ImplicitOutput
     for dependency in expr.dependencies:
         if dependency.name != root.name:
-            if isinstance(dependency, Input) == True and len(
+            if isinstance(dependency, (Input, ImplicitOutput)) and len(
                     dependency.dependencies) == 0:
                 inputs.append(dependency)
             inputs = collect_input_exprs(inputs, root, dependency)
-- 
2.43.0


From c002ba203914c61778bdc26587d655de0f07062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 17/56] fix: an implicit output starts at the value it was
 created with

---
 omtools/comps/implicit_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 83b8cdf..d43f055 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -70,7 +70,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals.get(out_name, res_expr.val),
                 )
 
                 # add inputs, declare partials (out wrt in)
-- 
2.43.0


From 89185e31ffbebf408b76a1a6fab58767dcbf0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 18/56] fix: several bracketed outputs in one component keep
 their own brackets

---
 omtools/comps/implicit_component.py | 2 +-
 omtools/core/implicit_output.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d43f055..0b044a6 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -218,7 +218,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and out_name in self.group.brackets_map[0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..de6a5f2 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,7 +154,9 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        self.group.out_vals[self.name] = self.val
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From 4d72b26af2327b1d87655ec9da0c184e61a75f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 19/56] fix: linear solve of an implicit component uses all
 derivatives of its residuals

---
 omtools/comps/implicit_component.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 0b044a6..d2a5406 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -267,14 +267,23 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                                                            in_expr.name]
                 jacobian[out_name, out_name] = jac[res_name, out_name]
 
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                # derivatives wrt all outputs, to solve the linear system
+                self.derivs[out_name] = np.hstack(
+                    [jac[res_name, wrt] for wrt in out_names])
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.all_inputs.keys())
+        mtx = np.vstack([self.derivs[out_name] for out_name in out_names])
+        if mode == 'fwd':
+            rhs, sol = d_residuals, d_outputs
+        else:
+            rhs, sol = d_outputs, d_residuals
+            mtx = mtx.T
+        x = np.linalg.solve(
+            mtx,
+            np.concatenate([rhs[out_name].flatten() for out_name in out_names]),
+        )
+        for out_name in out_names:
+            size = sol[out_name].size
+            sol[out_name] = x[:size].reshape(sol[out_name].shape)
+            x = x[size:]
-- 
2.43.0


From 0447fcdeffca6fdb7ff42de7fc3a55de8fd7ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 20/56] fix: setup of an ImplicitComponent can be inherited and
 called again

---
 omtools/comps/implicit_component.py | 33 +++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d2a5406..a2425d8 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,7 +37,23 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
-        func(self)
+        # The setup method of a derived class calls the setup method of
+        # its base class; build problem once, when the former is done
+        if self._in_setup:
+            func(self)
+            return
+
+        # Problem.setup() is called again; start from an empty problem
+        if self._setup_done:
+            self._clear_problem()
+        self._setup_done = True
+
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
+
         # setup internal problem
         g = self.group
 
@@ -136,7 +152,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -163,6 +180,16 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._in_setup = False
+        self._setup_done = False
+        self._clear_problem()
+        self.maxiter = 100
+        self.n2 = n2
+
+    def _clear_problem(self):
+        """
+        Forget all expressions
+        """
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
@@ -170,8 +197,6 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_outputs: Set[str] = set()
         self.residuals: List[Variable] = []
         self.derivs = dict()
-        self.maxiter = 100
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.residuals:
-- 
2.43.0


From bbaa85b7d652aac3131795c1d8eb2012b6babe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 21/56] fix: derivatives of coupled implicit outputs and of
 residuals that depend on inputs through child systems

---
 omtools/comps/implicit_component.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index a2425d8..5163711 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -125,6 +125,11 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+        # Any residual may depend on any input or output of this component
+        # through child systems, and any output on any input through
+        # other outputs
+        if len(self.all_outputs) > 0:
+            self.declare_partials('*', '*')
         self.prob.setup()
 
         # set initial values for inputs and output
@@ -287,7 +292,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             if isinstance(res_expr, Subsystem) == False:
                 res_name = res_expr.name
                 out_name = self.group.res_out_map[res_name]
-                for in_expr in self.all_inputs[out_name]:
+                for in_expr in in_exprs:
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
                 jacobian[out_name, out_name] = jac[res_name, out_name]
-- 
2.43.0


From c7d64451526bac821a2be9511e34334574a23373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 22/56] fix: bracketed outputs that depend on each other are
 consistent

---
 omtools/comps/implicit_component.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 5163711..ee9931d 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -242,6 +242,19 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             residuals[out_name] = np.array(prob[res_name])
 
     def solve_nonlinear(self, inputs, outputs):
+        self._bisect(inputs, outputs)
+
+        # residuals may depend on outputs computed from other residuals;
+        # repeat until outputs are consistent with each other
+        if len(self.residuals) > 1 and self.group.brackets_map is not None:
+            for _ in range(self.maxiter):
+                prev = np.concatenate([outputs[name].flatten() for name in self.all_outputs])
+                self._bisect(inputs, outputs)
+                new = np.concatenate([outputs[name].flatten() for name in self.all_outputs])
+                if np.allclose(new, prev, rtol=1e-14, atol=1e-14):
+                    break
+
+    def _bisect(self, inputs, outputs):
         for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
-- 
2.43.0


From 4b8dd7255e5c79099484b314e4a035c233ac6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 23/56] fix: partials of min, max and pnorm do not depend on
 the last point computed

---
 omtools/comps/axiswise_max_comp.py            | 24 ++++++++++++----
 omtools/comps/axiswise_min_comp.py            | 24 ++++++++++++----
 omtools/comps/scalar_extremum_comp.py         | 28 +++++++++++--------
 .../comps/vectorized_axiswise_pnorm_comp.py   |  8 ++++--
 omtools/comps/vectorized_pnorm_comp.py        |  5 ++--
 5 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..8930799 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -74,6 +74,23 @@ class AxisMaxComp(ExplicitComponent):
         result = g_max + 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -82,12 +99,7 @@ class AxisMaxComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..4d32554 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -73,6 +73,23 @@ class AxisMinComp(ExplicitComponent):
         result = -g_max - 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = -inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -81,12 +98,7 @@ class AxisMinComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..271f1a5 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -46,7 +46,6 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        shape = self.options['shape']
         lower_flag = self.options['lower_flag']
         rho = self.options['rho']
 
@@ -66,15 +65,6 @@ class ScalarExtremumComp(ExplicitComponent):
         else:
             outputs[out_name] = result
 
-        dsum_dg = rho * exponents
-        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
-        dKS_dg = dKS_dsum * dsum_dg
-
-        self.dKS_dg = dKS_dg
-
-        # if lower_flag:
-        #     self.dKS_dg = -self.dKS_dg
-
     def compute_partials(self, inputs, partials):
         """
         Compute sub-jacobian parts. The model is assumed to be in an unscaled state.
@@ -87,7 +77,23 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        shape = self.options['shape']
+        lower_flag = self.options['lower_flag']
+        rho = self.options['rho']
+
+        if lower_flag:
+            g = -1.0 * inputs[in_name]
+        else:
+            g = inputs[in_name]
+
+        exponents = np.exp(rho * (g - np.max(g)))
+        summation = np.sum(exponents)
+
+        dsum_dg = rho * exponents
+        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
+        dKS_dg = dKS_dsum * dsum_dg
+
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..8fa11a7 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -85,8 +85,8 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
-        self.outputs = outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
-                                                  axis=axis)**(1 / pnorm_type)
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
+                                   axis=axis)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
@@ -94,8 +94,10 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        norm = np.sum(inputs[in_name]**pnorm_type,
+                      axis=axis)**(1 / pnorm_type)
         partials[out_name, in_name] = np.einsum(
-            self.operation, self.outputs**(1 - pnorm_type),
+            self.operation, norm**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
 
 
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..9f03326 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,7 +47,7 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
+        outputs[out_name] = np.linalg.norm(
             inputs[in_name].flatten(), ord=pnorm_type)
 
     def compute_partials(self, inputs, partials):
@@ -55,7 +55,8 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        partials[out_name, in_name] = self.outputs**(
+        norm = np.linalg.norm(inputs[in_name].flatten(), ord=pnorm_type)
+        partials[out_name, in_name] = norm**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
 
-- 
2.43.0


From 04cfacc97a927dc41afceb393d0191366d119397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 24/56] fix: totals of a Group set up again do not use names of
 its previous components

---
 omtools/core/group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 4a13056..8982444 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -44,6 +44,9 @@ def _post_setup(func: Callable) -> Callable:
         # Problem.setup() is called again; start from an empty graph
         if self._setup_done:
             self._clear_graph()
+            # OpenMDAO keeps the names of the previous components here;
+            # the new components have new names
+            self._scope_cache = {}
         self._setup_done = True
 
         # The user-defined Group.setup() method
-- 
2.43.0


From 62a43276b7a422e8b7e76affaf56ffd93e7574fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 25/56] fix: option types given as a list or set are enforced

---
 omtools/utils/options_dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..0df6388 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -288,6 +288,10 @@ class OptionsDictionary(object):
             raise RuntimeError("'types' and 'values' were both specified for option '%s'." %
                                name)
 
+        # isinstance accepts a tuple of types, but no other collection
+        if isinstance(types, (set, list)):
+            types = tuple(types)
+
         default_provided = default is not _undefined
 
         self._dict[name] = {
-- 
2.43.0


From 85974fa66a66ee3b70b24a046883fc662d7cc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 26/56] fix: expanding a scalar keeps its default value

---
 omtools/comps/scalar_expansion_comp.py | 3 ++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..93887c8 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,14 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', default=1)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
 
-        self.add_input(in_name)
+        self.add_input(in_name, shape=(1, ), val=self.options['val'])
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From c4dd11384f689a86f6518eb0fa34770de7783221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 27/56] fix: matmat by a vector declares the vector with its
 own shape

---
 omtools/std/matmat.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 8c10043..fff5fb5 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,4 +1,5 @@
 from omtools.comps.matmat_comp import MatMatComp
+from omtools.comps.matvec_comp import MatVecComp
 from omtools.core.variable import Variable
 from typing import List
 import numpy as np
@@ -41,17 +42,11 @@ def matmat(mat1, mat2):
         # numpy semantics: the product of a matrix and a vector is a vector
         out.shape = (mat1.shape[0], )
 
-        mat2_shape = (mat2.shape[0], 1)
-
-        out.build = lambda: MatMatComp(
+        out.build = lambda: MatVecComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
-            in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[
-                mat1.val,
-                (mat2.val * np.ones(mat2.shape)).reshape(mat2_shape)
-            ],
-            out_shape=out.shape,
+            in_shapes=[mat1.shape, mat2.shape],
+            in_vals=[mat1.val, mat2.val],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From bfef843d32d88331f6a947f9e32e28f323e51a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 28/56] fix: a cyclic output starts at the value it was created
 with

---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..b6e9503 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('out_val', default=1.)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['out_val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index dcf9c65..f5600a7 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -81,6 +81,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            out_val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From d2ecff684f92022af76588305c90e78ea68802f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 29/56] fix: operands that are neither expressions nor literals
 are refused

---
 omtools/core/variable.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 8c7a904..2ebe736 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,18 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def check_operands(expr1, expr2):
+    """
+    Check that the operands of a binary operation are expressions or
+    literals
+    """
+    for expr in (expr1, expr2):
+        if isinstance(expr, Variable) or isinstance(expr, numbers.Number):
+            continue
+        if not isinstance(expr, np.ndarray):
+            raise TypeError(expr, " is not an Variable object or literal")
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -408,6 +420,7 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -471,6 +484,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -538,6 +552,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -607,6 +622,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -693,7 +709,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -708,9 +724,8 @@ class ElementwisePower(Variable):
             )
 
         else:
-            # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError(expr2, " is not a literal")
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 611d5b9a799f5b1220b92bf14e3df02e0fa78478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 30/56] fix: literal arrays whose shape does not match the
 expression are refused

---
 omtools/core/variable.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 2ebe736..dbdf089 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -23,13 +23,24 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
 def check_operands(expr1, expr2):
     """
     Check that the operands of a binary operation are expressions or
-    literals
+    literals, and that a literal array has the shape of the expression
     """
-    for expr in (expr1, expr2):
+    for expr, other in ((expr1, expr2), (expr2, expr1)):
         if isinstance(expr, Variable) or isinstance(expr, numbers.Number):
             continue
         if not isinstance(expr, np.ndarray):
             raise TypeError(expr, " is not an Variable object or literal")
+        if expr.size == 1:
+            continue
+        try:
+            match = np.broadcast_shapes(expr.shape,
+                                        other.shape) == other.shape
+        except ValueError:
+            match = False
+        if match == False:
+            raise ValueError("Shape " + str(expr.shape) +
+                             " of literal array does not match shape " +
+                             str(other.shape) + " of expression")
 
 
 class Variable():
-- 
2.43.0


From 8b9b6a95d06690b1467bca4d7e399e74c64397dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 31/56] fix: inner product of vectors of different lengths is
 refused

---
 omtools/std/inner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..18bed52 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -31,6 +31,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        if expr1.shape != expr2.shape:
+            raise Exception("The shapes of the inputs must match!")
+
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-- 
2.43.0


From a403a4d764984b2bf406f53d3debdb89083ee267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 32/56] fix: expand refuses indices that do not describe an
 expansion

---
 omtools/std/expand.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..e2d2bbb 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -42,7 +42,11 @@ def expand(expr: Variable, shape: tuple, indices=None):
             _,
         ) = decompose_shape_tuple(shape, expand_indices)
 
-        if in_shape != expr.shape:
+        # The remaining axes are those of expr, in the same order
+        if (in_shape != expr.shape or len(out_indices) != len(shape)
+                or len(set(out_indices)) != len(out_indices)
+                or [i for i in out_indices if i in in_indices] !=
+                list(in_indices)):
             raise ValueError('Shape or indices is invalid')
 
         out.build = lambda: ArrayExpansionComp(
-- 
2.43.0


From 6da9d6b0c45772b8a9b96bb6189ef4f90915c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 33/56] fix: reorder_axes refuses operations that do not
 permute the axes

---
 omtools/utils/reorder_axes_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/utils/reorder_axes_utils.py b/omtools/utils/reorder_axes_utils.py
index 69268ce..87156be 100644
--- a/omtools/utils/reorder_axes_utils.py
+++ b/omtools/utils/reorder_axes_utils.py
@@ -4,6 +4,11 @@ def compute_new_axes_locations(in_shape: tuple, operation: str):
         input_subscript = operation.split('->')[0]
         output_subscript = operation.split('->')[1]
 
+        if (len(input_subscript) != len(in_shape)
+                or len(set(input_subscript)) != len(input_subscript)
+                or sorted(input_subscript) != sorted(output_subscript)):
+            raise ValueError(operation + " does not reorder the axes of shape " + str(in_shape))
+
         new_axes_locations = []
         for i in range(len(output_subscript)):
             new_axes_locations.append(input_subscript.index(output_subscript[i]))
-- 
2.43.0


From b9acc704829e05898cb90732cdc79e7833a5a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 34/56] fix: einsum refuses subscripts without an output

---
 omtools/utils/einsum_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..5148e6e 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -24,6 +24,9 @@ def compute_einsum_shape(
 
 
 def einsum_subscripts_tolist(subscripts: str):
+    if '->' not in subscripts:
+        raise ValueError(subscripts + " does not specify an output")
+
     operation_aslist = []   
     tensor_rep = ''
     for char in subscripts:
-- 
2.43.0


From db23dbbe230b49b6e2e6f8d7b956d565506d5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 35/56] fix: assigning to indices of an output that is defined
 as a whole is refused

---
 omtools/core/explicit_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index f5600a7..020965e 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -91,6 +91,10 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError("Variable for output " + self.name +
+                             " is already defined")
+
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From 09d58fe055c489634081cc1f9874240bf37b7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 36/56] fix: a slice assigned to an output with several axes
 counts its elements

---
 omtools/core/explicit_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 020965e..c56093d 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -125,7 +125,7 @@ class ExplicitOutput(Output):
                 key.start,
                 key.stop,
                 key.step,
-                size=self.shape[0],
+                size=int(np.prod(self.shape)),
             )
         # integer index assignment
         elif isinstance(key, int):
-- 
2.43.0


From f9b03c662329d7c9f0e6f335ec690ef57f0d43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 37/56] fix: a residual whose shape is not that of its output
 is refused

---
 omtools/core/implicit_output.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index de6a5f2..fe93d52 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -87,6 +87,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual does not match shape of " +
+                             self.name)
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
@@ -133,6 +136,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual does not match shape of " +
+                             self.name)
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
-- 
2.43.0


From e94567f9127e02902c25072b0be3e6a286ed3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 38/56] fix: inner: derivatives for axes counted from the end

---
 omtools/comps/tensor_inner_product_comp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/tensor_inner_product_comp.py b/omtools/comps/tensor_inner_product_comp.py
index 0f679e7..06bffda 100644
--- a/omtools/comps/tensor_inner_product_comp.py
+++ b/omtools/comps/tensor_inner_product_comp.py
@@ -77,7 +77,11 @@ class TensorInnerProductComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
-        axes = self.options['axes']
+        # I0 and I1 have twice the axes of the inputs, so that axes counted
+        # from the end would be looked for among the wrong half of them
+        axes = tuple(
+            np.mod(self.options['axes'][i], len(self.options['in_shapes'][i]))
+            for i in range(2))
 
         temp_partials = np.tensordot(self.I0, inputs[in_names[1]], axes=axes)
 
-- 
2.43.0


From f363e1936ac9dea27c35710e69b6d2d5155a053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 39/56] fix: add_subsystem: promotion arguments of components
 were ignored

---
 omtools/core/group.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 8982444..0d3e14a 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -111,7 +111,13 @@ def _post_setup(func: Callable) -> Callable:
                 promotes = ['*']
                 promotes_inputs = None
                 promotes_outputs = None
-                if isinstance(sys, OMGroup):
+                # Subsystems added by the user keep their name and are
+                # promoted as requested; components added without any
+                # such request are promoted like the generated ones
+                if isinstance(sys, OMGroup) or (
+                        isinstance(expr, Subsystem) and
+                    (expr.promotes, expr.promotes_inputs,
+                     expr.promotes_outputs) != (None, None, None)):
                     pfx = ''
                     promotes = expr.promotes
                     promotes_inputs = expr.promotes_inputs
-- 
2.43.0


From 8573cfe60b491f061e8071a8769ca356f682f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 40/56] fix: build time doubled with every layer of shared
 expressions

Adding the forward edges, computing costs, replacing leaf nodes and
collecting inputs visited every path from the root to a node, instead of
every node once.
---
 omtools/core/variable.py                   | 14 ++++++++++----
 omtools/utils/collect_input_exprs.py       | 10 ++++++++--
 omtools/utils/replace_output_leaf_nodes.py | 11 +++++++++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index dbdf089..e3f56d6 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -155,6 +155,7 @@ class Variable():
         self.build = None
         self.times_visited = 0
         self._dag_cost = 1
+        self._dag_cost_computed = False
         self.initialize(*args, **kwargs)
         self._getitem_called = False
         self._decomp = None
@@ -238,8 +239,10 @@ class Variable():
 
     def add_fwd_edges(self):
         for dependency in self.dependencies:
-            dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+            # follow each edge once, however many paths lead to it
+            if self not in dependency.dependents:
+                dependency.add_dependent_node(self)
+                dependency.add_fwd_edges()
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -361,8 +364,11 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        # compute the cost once, however many paths lead to this node
+        if self._dag_cost_computed == False:
+            self._dag_cost_computed = True
+            for dependency in self.dependencies:
+                self._dag_cost += dependency.compute_dag_cost()
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 7eed1e6..4441222 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -8,6 +8,7 @@ def collect_input_exprs(
     inputs: list,
     root: Variable,
     expr: Variable,
+    visited: set = None,
 ) -> List[Variable]:
     """
     Collect input nodes so that the resulting ``ImplicitComponent`` has
@@ -16,10 +17,15 @@ def collect_input_exprs(
     leaf nodes, too.
     """
     from omtools.core.implicit_output import ImplicitOutput
+    if visited is None:
+        visited = set()
     for dependency in expr.dependencies:
-        if dependency.name != root.name:
+        # visit each node once, however many paths lead to it
+        if dependency.name != root.name and dependency not in visited:
+            visited.add(dependency)
             if isinstance(dependency, (Input, ImplicitOutput)) and len(
                     dependency.dependencies) == 0:
                 inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+            inputs = collect_input_exprs(inputs, root, dependency,
+                                         visited)
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..7930223 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -7,14 +7,21 @@ def replace_output_leaf_nodes(
     root: Output,
     node: Variable,
     leaf: Input,
+    visited: set = None,
 ):
     """
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
+    if visited is None:
+        visited = set()
+    # visit each node once, however many paths lead to it
+    if node in visited:
+        return
+    visited.add(node)
+    for dependency in list(node.dependencies):
         if dependency is root:
             # replace dependency reference with Input node
             node.remove_dependency_node(dependency)
             node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+        replace_output_leaf_nodes(root, dependency, leaf, visited)
-- 
2.43.0


From 53835315cb2eb9cfbf1467ce6b394f815a8725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 41/56] fix: changing an array or list after handing it over
 changed the model

Components are constructed when setup() is over.  Literal arrays, default
values, brackets, axes of inner and promoted names were kept by reference
until then, so that an array filled anew in a loop ended up with its last
contents in every expression it was used in.
---
 omtools/core/group.py           |  8 +++++---
 omtools/core/implicit_output.py |  4 ++--
 omtools/core/variable.py        | 19 +++++++++++++++----
 omtools/std/inner.py            |  5 +++++
 omtools/utils/get_shape_val.py  |  4 ++--
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 0d3e14a..4c02170 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -1,5 +1,6 @@
 from collections.abc import Iterable
 from contextlib import contextmanager
+from copy import copy
 from typing import Callable, Dict, Tuple
 
 from openmdao.api import Group as OMGroup
@@ -413,12 +414,13 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         System
             Subsystem to add to `Group`
         """
+        # the user may change the arguments before subsystems are added
         self._most_recently_added_subsystem = Subsystem(
             name,
             subsys,
-            promotes=promotes,
-            promotes_inputs=promotes_inputs,
-            promotes_outputs=promotes_outputs,
+            promotes=copy(promotes),
+            promotes_inputs=copy(promotes_inputs),
+            promotes_outputs=copy(promotes_outputs),
         )
         for dependency in self._root.dependencies:
             self._most_recently_added_subsystem.add_dependency_node(dependency)
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index fe93d52..f9fa9c1 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -163,8 +163,8 @@ class ImplicitOutput(Output):
         self.group.out_vals[self.name] = self.val
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
-        self.group.brackets_map[0][self.name] = x1
-        self.group.brackets_map[1][self.name] = x2
+        self.group.brackets_map[0][self.name] = np.array(x1)
+        self.group.brackets_map[1][self.name] = np.array(x2)
 
         self.defined = True
 
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index e3f56d6..a2fa207 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -24,6 +24,12 @@ def check_operands(expr1, expr2):
     """
     Check that the operands of a binary operation are expressions or
     literals, and that a literal array has the shape of the expression
+
+    Returns
+    -------
+    tuple
+        The operands; literal arrays are copies, because the user may
+        change them before components are constructed
     """
     for expr, other in ((expr1, expr2), (expr2, expr1)):
         if isinstance(expr, Variable) or isinstance(expr, numbers.Number):
@@ -41,6 +47,9 @@ def check_operands(expr1, expr2):
             raise ValueError("Shape " + str(expr.shape) +
                              " of literal array does not match shape " +
                              str(other.shape) + " of expression")
+    return tuple(
+        np.array(expr) if isinstance(expr, np.ndarray) else expr
+        for expr in (expr1, expr2))
 
 
 class Variable():
@@ -437,7 +446,7 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
-        check_operands(expr1, expr2)
+        expr1, expr2 = check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -501,7 +510,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
-        check_operands(expr1, expr2)
+        expr1, expr2 = check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -569,7 +578,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
-        check_operands(expr1, expr2)
+        expr1, expr2 = check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -639,7 +648,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
-        check_operands(expr1, expr2)
+        expr1, expr2 = check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -729,6 +738,8 @@ class ElementwisePower(Variable):
         elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
+            # the user may change the array before components are constructed
+            expr2 = np.array(expr2)
             self.shape = expr1.shape
             self.val = expr1.val
 
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 18bed52..b87aed6 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
@@ -46,6 +48,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
 
+        # the user may change the axes before components are constructed
+        axes = deepcopy(axes)
+
         out.build = lambda: TensorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
diff --git a/omtools/utils/get_shape_val.py b/omtools/utils/get_shape_val.py
index 57d711d..3e08174 100644
--- a/omtools/utils/get_shape_val.py
+++ b/omtools/utils/get_shape_val.py
@@ -25,9 +25,9 @@ def get_shape_val(
     """
     if isinstance(val, Number):
         return shape, val * np.ones(shape)
-    if isinstance(val, list):
+    if isinstance(val, (list, np.ndarray)):
+        # the user may change the value before components are constructed
         val = np.array(val)
-    if isinstance(val, np.ndarray):
         if shape == (1, ):
             return val.shape, val
         if val.shape != shape:
-- 
2.43.0


From 451de1a6187a19544283f241bdc855c564a68a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 42/56] fix: implicit component linearized about intermediate
 values of an earlier evaluation

Setting the inputs and outputs of the internal problem does not update
what is computed from them; after check_partials with finite
differences, total derivatives were those at a perturbed point.
---
 omtools/comps/implicit_component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index ee9931d..7f212fc 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -290,6 +290,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
     def linearize(self, inputs, outputs, jacobian):
         self._set_values(inputs, outputs)
+        self.prob.run_model()
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From b4babc5b10e0b531275ab03929969590df4463ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 43/56] fix: derivatives of pnorm over all axes vanished under
 complex step

np.linalg.norm drops the imaginary parts.
---
 omtools/comps/vectorized_pnorm_comp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index 9f03326..0ea0cc9 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,15 +47,15 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        outputs[out_name] = np.linalg.norm(
-            inputs[in_name].flatten(), ord=pnorm_type)
+        outputs[out_name] = np.sum(
+            inputs[in_name]**pnorm_type)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        norm = np.linalg.norm(inputs[in_name].flatten(), ord=pnorm_type)
+        norm = np.sum(inputs[in_name]**pnorm_type)**(1 / pnorm_type)
         partials[out_name, in_name] = norm**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
-- 
2.43.0


From cb57563aec92ab0a761a392b3ea77b092c215631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 44/56] fix: linearizing a product under complex step raised a
 casting error

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index ee69d81..c58ec70 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -99,7 +99,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                     a = power
                     # the derivative of x**0 is zero, also where x is zero
                     b = np.where(np.asarray(power) == 0, 0., power - 1.)
-                deriv *= a * inputs[in_name2]**b
+                deriv = deriv * a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
 
-- 
2.43.0


From c199d649e24efc6bc71a2e3624200b821ba46441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 45/56] fix: derivatives of implicit components vanished under
 complex step

The internal problem discarded the imaginary parts of inputs and
outputs. Evaluate residuals under complex step, and find the imaginary
parts of bracketed outputs.
---
 omtools/comps/implicit_component.py | 49 ++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7f212fc..3de7971 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -130,7 +130,8 @@ def _post_setup(func: Callable) -> Callable:
         # other outputs
         if len(self.all_outputs) > 0:
             self.declare_partials('*', '*')
-        self.prob.setup()
+        self.prob.setup(
+            force_alloc_complex=self._problem_meta['force_alloc_complex'])
 
         # set initial values for inputs and output
         for res_expr in self.residuals:
@@ -143,6 +144,7 @@ def _post_setup(func: Callable) -> Callable:
                     self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
+        self.prob.final_setup()
 
         # create n2 diagram of internal model for debugging
         if self.n2 == True:
@@ -203,15 +205,20 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.residuals: List[Variable] = []
         self.derivs = dict()
 
-    def _set_values(self, inputs, outputs):
+    def _set_values(self, inputs, outputs, complex_step=False):
+        # Only residuals are evaluated under complex step; roots are
+        # bracketed, and derivatives computed, using the real parts
+        if self.prob.model.under_complex_step != complex_step:
+            self.prob.set_complex_step_mode(complex_step)
+        part = np.array if complex_step else np.real
         for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                self.prob[out_name] = outputs[out_name]
+                self.prob[out_name] = part(outputs[out_name])
                 for in_expr in self.all_inputs[out_name]:
                     if in_expr.name not in self.all_outputs:
-                        self.prob[in_expr.name] = inputs[in_expr.name]
+                        self.prob[in_expr.name] = part(inputs[in_expr.name])
 
     def setup(self):
         pass
@@ -234,7 +241,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         return residuals
 
     def apply_nonlinear(self, inputs, outputs, residuals):
-        self._set_values(inputs, outputs)
+        self._set_values(inputs, outputs, self.under_complex_step)
         prob = self.prob
         prob.run_model()
 
@@ -254,6 +261,31 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 if np.allclose(new, prev, rtol=1e-14, atol=1e-14):
                     break
 
+        if self.under_complex_step and self.group.brackets_map is not None:
+            self._solve_imaginary(inputs, outputs)
+
+    def _solve_imaginary(self, inputs, outputs):
+        """
+        Find the imaginary parts of the outputs that are within brackets,
+        given their real parts
+        """
+        names = [
+            name for name in self.all_inputs
+            if name in self.group.brackets_map[0]
+        ]
+        self.linearize(inputs, outputs, dict())
+        residuals = dict()
+        self.apply_nonlinear(inputs, outputs, residuals)
+        x = np.linalg.solve(
+            np.block([[self.derivs[of, wrt] for wrt in names]
+                      for of in names]),
+            np.concatenate([residuals[name].imag.flatten() for name in names]),
+        )
+        for name in names:
+            size = outputs[name].size
+            outputs[name] -= 1j * x[:size].reshape(outputs[name].shape)
+            x = x[size:]
+
     def _bisect(self, inputs, outputs):
         for res_expr in self.residuals:
             if isinstance(res_expr, Subsystem) == False and isinstance(
@@ -312,12 +344,13 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 jacobian[out_name, out_name] = jac[res_name, out_name]
 
                 # derivatives wrt all outputs, to solve the linear system
-                self.derivs[out_name] = np.hstack(
-                    [jac[res_name, wrt] for wrt in out_names])
+                for wrt in out_names:
+                    self.derivs[out_name, wrt] = jac[res_name, wrt]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
         out_names = list(self.all_inputs.keys())
-        mtx = np.vstack([self.derivs[out_name] for out_name in out_names])
+        mtx = np.block([[self.derivs[of, wrt] for wrt in out_names]
+                        for of in out_names])
         if mode == 'fwd':
             rhs, sol = d_residuals, d_outputs
         else:
-- 
2.43.0


From 166814e881fe3d4abc0b1c9cf14da0d90632eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 46/56] fix: imaginary parts of literal arrays and default
 values were dropped

---
 omtools/core/variable.py       | 4 ++++
 omtools/utils/get_shape_val.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index a2fa207..49a08b6 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -36,6 +36,8 @@ def check_operands(expr1, expr2):
             continue
         if not isinstance(expr, np.ndarray):
             raise TypeError(expr, " is not an Variable object or literal")
+        if np.iscomplexobj(expr):
+            raise TypeError(expr, " is not real")
         if expr.size == 1:
             continue
         try:
@@ -736,6 +738,8 @@ class ElementwisePower(Variable):
                 in_vals=[expr1.val],
             )
         elif isinstance(expr2, np.ndarray):
+            if np.iscomplexobj(expr2):
+                raise TypeError(expr2, " is not real")
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             # the user may change the array before components are constructed
diff --git a/omtools/utils/get_shape_val.py b/omtools/utils/get_shape_val.py
index 3e08174..25afe77 100644
--- a/omtools/utils/get_shape_val.py
+++ b/omtools/utils/get_shape_val.py
@@ -23,6 +23,8 @@ def get_shape_val(
     Tuple[int]
         Shape of value
     """
+    if np.iscomplexobj(val):
+        raise TypeError("Value " + str(val) + " is not real")
     if isinstance(val, Number):
         return shape, val * np.ones(shape)
     if isinstance(val, (list, np.ndarray)):
-- 
2.43.0


From 96d6f1ad63a577ce3bfc74eade758a2a1becd908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 47/56] fix: a setup that comes from a mixin class did not
 build the model

---
 omtools/comps/implicit_component.py | 10 +++++++++-
 omtools/core/group.py               | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 3de7971..84ed099 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -161,7 +161,15 @@ class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
         if 'setup' in attr:
             attr['setup'] = _post_setup(attr['setup'])
-        return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
+        new = super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
+        # setup may come from a base class (mixin) that is not of this
+        # type
+        for base in new.__mro__:
+            if 'setup' in vars(base):
+                if not isinstance(base, _ProblemBuilder):
+                    new.setup = _post_setup(new.setup)
+                break
+        return new
 
 
 class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 4c02170..0ed82c0 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -151,7 +151,15 @@ class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
         if 'setup' in attr:
             attr['setup'] = _post_setup(attr['setup'])
-        return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
+        new = super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
+        # setup may come from a base class (mixin) that is not of this
+        # type
+        for base in new.__mro__:
+            if 'setup' in vars(base):
+                if not isinstance(base, _ComponentBuilder):
+                    new.setup = _post_setup(new.setup)
+                break
+        return new
 
 
 class Group(OMGroup, metaclass=_ComponentBuilder):
-- 
2.43.0


From 4fb6d4a3cdc2b85c3a012ab15aa9dc5851ec2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 48/56] fix: derivatives of a linear power combination with a
 zero power at zero

---
 omtools/comps/linearpowercombination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index b7842d9..2959b8d 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -108,7 +108,7 @@ class LinearPowerCombinationComp(ExplicitComponent):
                     b = power
                     if in_name == in_name2:
                         a = power
-                        b = power - 1.
+                        b = power - 1. if power != 0. else 0.
 
                     term *= a * inputs[in_name2]**b
 
-- 
2.43.0


From 3eeda2414bc4455722663afe2c7548f9abbb3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 49/56] fix: literals of unsigned or low-precision types lost
 their sign or precision

---
 omtools/core/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 49a08b6..53107c2 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -29,7 +29,8 @@ def check_operands(expr1, expr2):
     -------
     tuple
         The operands; literal arrays are copies, because the user may
-        change them before components are constructed
+        change them before components are constructed; literals
+        have the precision of Python numbers whatever their type
     """
     for expr, other in ((expr1, expr2), (expr2, expr1)):
         if isinstance(expr, Variable) or isinstance(expr, numbers.Number):
@@ -50,7 +51,8 @@ def check_operands(expr1, expr2):
                              " of literal array does not match shape " +
                              str(other.shape) + " of expression")
     return tuple(
-        np.array(expr) if isinstance(expr, np.ndarray) else expr
+        np.array(expr, dtype=float) if isinstance(expr, np.ndarray) else
+        expr.item() if isinstance(expr, np.generic) else expr
         for expr in (expr1, expr2))
 
 
-- 
2.43.0


From 707978aa004ed3d66fbaae4b598f158501ed2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 50/56] fix: elements of a tuple key that are no integers or
 slices were ignored

---
 omtools/core/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 53107c2..cfe671f 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -212,6 +212,10 @@ class Variable():
                             slice(key[i], key[i] + 1, None),
                             self.shape,
                         ))
+                else:
+                    raise TypeError(
+                        "Key must be an int, slice, or tuple object containing slice and/or int objects"
+                    )
             key = tuple(l)
         else:
             raise TypeError(
-- 
2.43.0


From 6c833ca29c241b93a7d6f0447349524459b77b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 51/56] fix: dot and inner of vectors that are results of a
 reduction were refused

---
 omtools/std/dot.py   | 2 +-
 omtools/std/inner.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..0a47579 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -39,7 +39,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
     else:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index b87aed6..2cfcdef 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -39,7 +39,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
 
-- 
2.43.0


From f17a2e860c8b25bf1ddcf76814517bd24a12852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 52/56] fix: derivatives were zero after a second setup of a
 model with a group in an OpenMDAO group

---
 omtools/core/group.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 0ed82c0..122d74f 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -45,10 +45,8 @@ def _post_setup(func: Callable) -> Callable:
         # Problem.setup() is called again; start from an empty graph
         if self._setup_done:
             self._clear_graph()
-            # OpenMDAO keeps the names of the previous components here;
-            # the new components have new names
-            self._scope_cache = {}
         self._setup_done = True
+        self._clear_scope_cache()
 
         # The user-defined Group.setup() method
         self._in_setup = True
@@ -203,6 +201,19 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.brackets_map = None
         self.out_vals = dict()
 
+    def _clear_scope_cache(self):
+        """
+        OpenMDAO keeps the names of the components of a previous setup
+        in this group and in the groups that contain it; the new
+        components have new names
+        """
+        if self._problem_meta is not None:
+            group = self._problem_meta['model_ref']()
+            group._scope_cache = {}
+            for name in filter(None, self.pathname.split('.')):
+                group = group._get_subsystem(name)
+                group._scope_cache = {}
+
     def initialize(self, *args, **kwargs):
         """
         User defined method to set options
-- 
2.43.0


From fbaad71ac597359516d87d56f29e566af51be82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:27 +0000
Subject: [PATCH 53/56] fix: chains of more than about 1000 expressions
 exceeded the recursion limit

---
 omtools/core/variable.py                   | 77 +++++++++++++++-------
 omtools/utils/collect_input_exprs.py       | 24 ++++---
 omtools/utils/replace_output_leaf_nodes.py | 26 +++++---
 3 files changed, 85 insertions(+), 42 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index cfe671f..c278564 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -255,11 +255,19 @@ class Variable():
         return expr
 
     def add_fwd_edges(self):
-        for dependency in self.dependencies:
-            # follow each edge once, however many paths lead to it
-            if self not in dependency.dependents:
-                dependency.add_dependent_node(self)
-                dependency.add_fwd_edges()
+        # the path to the current node is a list, not the call stack;
+        # expressions may depend on each other in long chains
+        path = [(self, iter(self.dependencies))]
+        while path != []:
+            node, remaining = path[-1]
+            for dependency in remaining:
+                # follow each edge once, however many paths lead to it
+                if node not in dependency.dependents:
+                    dependency.add_dependent_node(node)
+                    path.append((dependency, iter(dependency.dependencies)))
+                    break
+            else:
+                path.pop()
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -295,23 +303,30 @@ class Variable():
         nodes: dict[Variable]
             Dictionary of nodes registered so far
         """
-        for node in self.dependencies:
-            # Check for name collisions
-            if node._id in nodes.keys():
-                if nodes[node._id] is not None:
-                    # if name is in use and a separate object is already
-                    # registered, then we have a name collision
-                    if nodes[node._id] is not node:
-                        raise ValueError(
-                            "Name collision (", node.name, ") between ",
-                            nodes[node._id], " and ", node,
-                            "; check that calls to regiser_output and ",
-                            "create_* do not give the same name to ",
-                            "two outputs")
+        # the path to the current node is a list, not the call stack;
+        # expressions may depend on each other in long chains
+        path = [iter(self.dependencies)]
+        while path != []:
+            for node in path[-1]:
+                # Check for name collisions
+                if node._id in nodes.keys():
+                    if nodes[node._id] is not None:
+                        # if name is in use and a separate object is already
+                        # registered, then we have a name collision
+                        if nodes[node._id] is not node:
+                            raise ValueError(
+                                "Name collision (", node.name, ") between ",
+                                nodes[node._id], " and ", node,
+                                "; check that calls to regiser_output and ",
+                                "create_* do not give the same name to ",
+                                "two outputs")
+                else:
+                    # register node
+                    nodes[node._id] = node
+                    path.append(iter(node.dependencies))
+                    break
             else:
-                # register node
-                nodes[node._id] = node
-                node.register_nodes(nodes)
+                path.pop()
 
     def incr_times_visited(self):
         """
@@ -381,11 +396,25 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        # compute the cost once, however many paths lead to this node
+        # compute the cost once, however many paths lead to a node; the
+        # path to the current node is a list, not the call stack;
+        # expressions may depend on each other in long chains
         if self._dag_cost_computed == False:
             self._dag_cost_computed = True
-            for dependency in self.dependencies:
-                self._dag_cost += dependency.compute_dag_cost()
+            path = [(self, iter(self.dependencies))]
+            while path != []:
+                node, remaining = path[-1]
+                for dependency in remaining:
+                    if dependency._dag_cost_computed == False:
+                        dependency._dag_cost_computed = True
+                        path.append(
+                            (dependency, iter(dependency.dependencies)))
+                        break
+                    node._dag_cost += dependency._dag_cost
+                else:
+                    path.pop()
+                    if path != []:
+                        path[-1][0]._dag_cost += node._dag_cost
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 4441222..0925f80 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -19,13 +19,19 @@ def collect_input_exprs(
     from omtools.core.implicit_output import ImplicitOutput
     if visited is None:
         visited = set()
-    for dependency in expr.dependencies:
-        # visit each node once, however many paths lead to it
-        if dependency.name != root.name and dependency not in visited:
-            visited.add(dependency)
-            if isinstance(dependency, (Input, ImplicitOutput)) and len(
-                    dependency.dependencies) == 0:
-                inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency,
-                                         visited)
+    # the path to the current expression is a list, not the call stack;
+    # expressions may depend on each other in long chains
+    path = [iter(expr.dependencies)]
+    while path != []:
+        for dependency in path[-1]:
+            # visit each node once, however many paths lead to it
+            if dependency.name != root.name and dependency not in visited:
+                visited.add(dependency)
+                if isinstance(dependency, (Input, ImplicitOutput)) and len(
+                        dependency.dependencies) == 0:
+                    inputs.append(dependency)
+                path.append(iter(dependency.dependencies))
+                break
+        else:
+            path.pop()
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 7930223..35618aa 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -15,13 +15,21 @@ def replace_output_leaf_nodes(
     """
     if visited is None:
         visited = set()
-    # visit each node once, however many paths lead to it
-    if node in visited:
-        return
+    # the path to the current node is a list, not the call stack;
+    # expressions may depend on each other in long chains
+    path = [(node, iter(list(node.dependencies)))]
     visited.add(node)
-    for dependency in list(node.dependencies):
-        if dependency is root:
-            # replace dependency reference with Input node
-            node.remove_dependency_node(dependency)
-            node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf, visited)
+    while path != []:
+        node, remaining = path[-1]
+        for dependency in remaining:
+            if dependency is root:
+                # replace dependency reference with Input node
+                node.remove_dependency_node(dependency)
+                node.add_dependency_node(leaf)
+            # visit each node once, however many paths lead to it
+            if dependency not in visited:
+                visited.add(dependency)
+                path.append((dependency, iter(list(dependency.dependencies))))
+                break
+        else:
+            path.pop()
-- 
2.43.0


From 396f175596eee5bdf34815107c0300b43be81af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:03 +0000
Subject: [PATCH 54/56] fix: statements executed before setup were lost when a
 problem was set up again

---
 omtools/core/group.py    | 43 ++++++++++++++++++++++++++++++----------
 omtools/core/variable.py | 10 ++++++++++
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 122d74f..9ac722e 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -42,10 +42,11 @@ def _post_setup(func: Callable) -> Callable:
             func(self)
             return
 
-        # Problem.setup() is called again; start from an empty graph
-        if self._setup_done:
-            self._clear_graph()
-        self._setup_done = True
+        # Problem.setup() is called again; start from the graph of the
+        # statements executed before setup, which are not executed again
+        self._forget_setup()
+        self._given = ([], None) if self._static_mode else (list(
+            self._root.dependencies), self._most_recently_added_subsystem)
         self._clear_scope_cache()
 
         # The user-defined Group.setup() method
@@ -58,6 +59,15 @@ def _post_setup(func: Callable) -> Callable:
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
 
+        # Dependencies are changed below; nodes may have been sorted
+        # before
+        self._dependencies = {
+            node: list(node.dependencies)
+            for node in self.nodes.values()
+        }
+        for node in [self._root] + list(self.nodes.values()):
+            node.reset_graph_data()
+
         # Ensure independent variables are at the top of n2 diagram
         for node in self.nodes.values():
             for indep in self._root.dependencies:
@@ -142,6 +152,8 @@ def _post_setup(func: Callable) -> Callable:
             # Cut down on memory consumption
             del expr
 
+        self._forget_setup()
+
     return _sort_expressions_and_build_components
 
 
@@ -185,13 +197,8 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         super().__init__(**kwargs)
         self.reverse_branch_sorting: bool = False
         self._in_setup: bool = False
-        self._setup_done: bool = False
-        self._clear_graph()
-
-    def _clear_graph(self):
-        """
-        Forget all expressions
-        """
+        self._given = None
+        self._dependencies: dict = {}
         self.nodes: dict = {}
         self.input_vals: dict = {}
         self.sorted_builders = []
@@ -201,6 +208,20 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.brackets_map = None
         self.out_vals = dict()
 
+    def _forget_setup(self):
+        """
+        Forget the statements of setup, once components are constructed
+        (or construction failed), but not those executed before
+        """
+        for node, dependencies in self._dependencies.items():
+            node.dependencies = dependencies
+        self._dependencies = {}
+        self.nodes = {}
+        if self._given is not None:
+            (self._root.dependencies,
+             self._most_recently_added_subsystem) = self._given
+            self._given = None
+
     def _clear_scope_cache(self):
         """
         OpenMDAO keeps the names of the components of a previous setup
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index c278564..d404691 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -254,6 +254,16 @@ class Variable():
         )
         return expr
 
+    def reset_graph_data(self):
+        """
+        Forget what was found when this node was part of a graph that was
+        sorted before
+        """
+        self.dependents = []
+        self.times_visited = 0
+        self._dag_cost = 1
+        self._dag_cost_computed = False
+
     def add_fwd_edges(self):
         # the path to the current node is a list, not the call stack;
         # expressions may depend on each other in long chains
-- 
2.43.0


From 291587e2867d493980295afb7614e30ae49bc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:11 +0000
Subject: [PATCH 55/56] fix: outputs assembled from the results of child
 systems added later, or from their own elements, were dropped

---
 omtools/core/explicit_output.py | 26 ++++++++++++++++
 omtools/core/graph.py           | 53 +++++++++++++++++++++++++++++++++
 omtools/core/group.py           |  6 +++-
 3 files changed, 84 insertions(+), 1 deletion(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index c56093d..c0ba359 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -3,6 +3,7 @@ from typing import Dict, List, Tuple, Union
 import numpy as np
 
 from omtools.core.variable import Variable
+from omtools.core.graph import depends_on
 from omtools.core.input import Input
 from omtools.core.output import Output
 from omtools.comps.indexed_pass_through_comp import \
@@ -91,10 +92,35 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        """
+        Assign an expression to elements of this output. Elements may
+        depend on other elements, which requires an iterative solver as
+        in ``define``.
+
+        Parameters
+        ----------
+        key: Union[int, slice, Tuple[slice]]
+            Indices of the elements
+        expr: Variable
+            The expression that computes the elements
+        """
         if self.defined == True and self.indexed_assignment == False:
             raise ValueError("Variable for output " + self.name +
                              " is already defined")
 
+        if expr is self:
+            raise ValueError("Variable for output " + self.name +
+                             " cannot be assigned to its own elements")
+
+        # Elements may be computed from other elements of this output,
+        # which forms a cycle, as in ``define``
+        if depends_on(expr, self, through_subsystems=False):
+            replace_output_leaf_nodes(
+                self,
+                expr,
+                Input(self.name, shape=self.shape, val=self.val),
+            )
+
         self.add_dependency_node(expr)
         tgt_indices = []
 
diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index d8fce29..4a9c087 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -1,3 +1,4 @@
+from omtools.core.subsystem import Subsystem
 from omtools.core.variable import Variable
 from typing import List
 
@@ -34,6 +35,58 @@ def remove_indirect_dependencies(node: Variable):
             node.remove_dependency_by_index(i)
 
 
+def depends_on(
+    node: Variable,
+    candidate: Variable,
+    through_subsystems: bool = True,
+) -> bool:
+    """
+    Find out if a node depends on another one, directly or indirectly.
+
+    Parameters
+    ----------
+    node: Variable
+        The node whose dependencies are searched
+    candidate: Variable
+        The node to search for
+    through_subsystems: bool
+        Consider the outputs a subsystem comes after (all that were
+        created before it was added, whether it uses them or not)
+    """
+    visited = set()
+    stack = [node]
+    while stack != []:
+        v = stack.pop()
+        if isinstance(v, Subsystem) and not through_subsystems:
+            continue
+        for dependency in v.dependencies:
+            if dependency is candidate:
+                return True
+            if dependency not in visited:
+                visited.add(dependency)
+                stack.append(dependency)
+    return False
+
+
+def remove_subsystem_feedbacks(root: Variable):
+    """
+    A subsystem comes after all outputs created before it was added,
+    except for those that were defined later, in terms of its outputs.
+
+    Parameters
+    ----------
+    root: Variable
+        In ``omtools.group``, ``Group._root``, whose dependencies
+        include all subsystems in the order in which they were added
+    """
+    for node in root.dependencies:
+        if isinstance(node, Subsystem) and depends_on(node, node):
+            for dependency in list(node.dependencies):
+                if isinstance(dependency, Subsystem) == False and depends_on(
+                        dependency, node):
+                    node.remove_dependency_node(dependency)
+
+
 def topological_sort(node: Variable) -> List[Variable]:
     """
     Perform a topological sort on the Directed Acyclic Graph (DAG).
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 9ac722e..cd55309 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -9,7 +9,7 @@ from openmdao.core.system import System
 # from omtools.core._group import _Group
 from omtools.core.explicit_output import ExplicitOutput
 from omtools.core.variable import Variable
-from omtools.core.graph import remove_indirect_dependencies, topological_sort
+from omtools.core.graph import remove_indirect_dependencies, remove_subsystem_feedbacks, topological_sort
 from omtools.core.implicit_output import ImplicitOutput
 from omtools.core.indep import Indep
 from omtools.core.input import Input
@@ -75,6 +75,10 @@ def _post_setup(func: Callable) -> Callable:
                     if not isinstance(node, Indep):
                         node.add_dependency_node(indep)
 
+        # Outputs created before a subsystem was added may have been
+        # defined afterwards, in terms of its outputs
+        remove_subsystem_feedbacks(self._root)
+
         # Clean up graph, removing dependencies that do not constrain
         # execution order
         for node in self.nodes.values():
-- 
2.43.0


From bd83ec3b9ac339a47327c861725bcd14263ab135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:16 +0000
Subject: [PATCH 56/56] fix: outputs used by their names could be computed
 after the expressions that use them

---
 omtools/core/group.py                      | 19 ++++++++++++++++++-
 omtools/core/input.py                      |  3 +++
 omtools/utils/replace_output_leaf_nodes.py |  1 +
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index cd55309..1afb8d6 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -9,7 +9,7 @@ from openmdao.core.system import System
 # from omtools.core._group import _Group
 from omtools.core.explicit_output import ExplicitOutput
 from omtools.core.variable import Variable
-from omtools.core.graph import remove_indirect_dependencies, remove_subsystem_feedbacks, topological_sort
+from omtools.core.graph import depends_on, remove_indirect_dependencies, remove_subsystem_feedbacks, topological_sort
 from omtools.core.implicit_output import ImplicitOutput
 from omtools.core.indep import Indep
 from omtools.core.input import Input
@@ -75,6 +75,23 @@ def _post_setup(func: Callable) -> Callable:
                     if not isinstance(node, Indep):
                         node.add_dependency_node(indep)
 
+        # Inputs may refer to outputs of this group by name
+        outputs = {
+            expr.name: expr
+            for expr in self._root.dependencies
+            if isinstance(expr, Subsystem) == False
+        }
+        for node in self.nodes.values():
+            if isinstance(
+                    node, Input) and not node.feedback and node.name in outputs:
+                output = outputs[node.name]
+                if depends_on(
+                        output,
+                        node,
+                        through_subsystems=False,
+                ) == False:
+                    node.add_dependency_node(output)
+
         # Outputs created before a subsystem was added may have been
         # defined afterwards, in terms of its outputs
         remove_subsystem_feedbacks(self._root)
diff --git a/omtools/core/input.py b/omtools/core/input.py
index 802d1d1..9896747 100644
--- a/omtools/core/input.py
+++ b/omtools/core/input.py
@@ -31,6 +31,9 @@ class Input(Variable):
         """
         self.name = name
         self.shape, self.val = get_shape_val(shape, val)
+        # value comes from the previous iteration of a solver, see
+        # replace_output_leaf_nodes
+        self.feedback = False
         # self.units = units
 
     def __repr__(self):
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 35618aa..4544b77 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -15,6 +15,7 @@ def replace_output_leaf_nodes(
     """
     if visited is None:
         visited = set()
+        leaf.feedback = True
     # the path to the current node is a list, not the call stack;
     # expressions may depend on each other in long chains
     path = [(node, iter(list(node.dependencies)))]
-- 
2.43.0

