From 7df4761a6891071ff6e772940567d4d03d6f8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 01/47] fix: Einsum with several leading arrays compared
 indices with array values instead of shapes

---
 parametricmatrixmodels/modules/einsum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..12378b6 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,13 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [
+                    p.shape
+                    for p in jax.tree.leaves(
+                        self.params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
+                    )
+                ]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From 149a687c863f6d651da7cf881bf9efd11c171ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:34 +0000
Subject: [PATCH 02/47] fix: MatMul states its output indices explicitly
 (products of 26 or more factors came out transposed)

---
 parametricmatrixmodels/modules/matmul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..1e0aabe 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -385,7 +385,10 @@ class MatMul(Einsum):
         einsum_terms_perm = [einsum_terms[i] for i in perm]
 
         # we let Einsum infer the rest of dim_map and the output indices
-        einsum_str = ",".join(einsum_terms_perm)
+        # state the output explicitly: inferring it from the sorted indices
+        # would transpose products that run into the uppercase letters
+        output_str = einsum_terms[0][0] + einsum_terms[-1][1:]
+        einsum_str = ",".join(einsum_terms_perm) + "->" + output_str
 
         return einsum_str, dim_map
 
-- 
2.43.0


From 74c9a349a89599be136537fb53e9f34ace3b3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 03/47] fix: Reshape/Flatten announced a float dimension for
 scalar samples

---
 parametricmatrixmodels/modules/reshape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..9956105 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -1,3 +1,5 @@
+import math
+
 import jax
 import jax.numpy as np
 from beartype import beartype
@@ -176,7 +178,7 @@ class Reshape(BaseModule):
             if target_shape is None:
                 return
 
-            in_size = np.prod(np.array(in_shape)).item()
+            in_size = math.prod(in_shape)
             if -1 in target_shape:
                 # make sure there is only one -1
                 assert (
@@ -190,7 +192,7 @@ class Reshape(BaseModule):
                 inferred_dim = in_size // known_size
                 target_size = known_size * inferred_dim
             else:
-                target_size = np.prod(np.array(target_shape)).item()
+                target_size = math.prod(target_shape)
 
             assert in_size == target_size, (
                 f"Input shape {in_shape} is not compatible with target shape"
-- 
2.43.0


From 2d836857025d63b72368cc2cedca35acbd6b1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:30 +0000
Subject: [PATCH 04/47] fix: Eigenvalues(num_eig=None) announces the size of
 each input leaf

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From 97a87e0c8ad7df98351848c479043ce8042315ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:02 +0000
Subject: [PATCH 05/47] fix: modules under a name starting with 'input' or
 'output' lost their nested path in the outer connections

---
 parametricmatrixmodels/graph_util.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..be03eab 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,9 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        # the part before the double separator is the module path (or the
+        # reserved input key), the part after it is the IO path
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
-- 
2.43.0


From f038765261c3ad3811ef3cebafb15a21e9c08f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:02 +0000
Subject: [PATCH 06/47] fix: modules whose name starts with 'output' were taken
 for model outputs

---
 parametricmatrixmodels/graph_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index be03eab..077510d 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -641,7 +641,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From e7aea2b08a48d2ae647766a659b0590b6d9d9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:00 +0000
Subject: [PATCH 07/47] fix: trees built from paths mixing index and name keys
 at a nested level depended on the order of the paths

---
 parametricmatrixmodels/tree_util.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..dd01187 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -466,6 +466,14 @@ def extend_structure_from_strpaths(
     # we need lists for mutability during construction
     tuple_node_paths = []
 
+    # a new node is a list only if all paths through it continue with an index
+    all_parts = [path.split(separator) for path in strpaths]
+
+    def new_node(prefix: List[str]) -> List | dict:
+        n = len(prefix)
+        next_keys = [p[n] for p in all_parts if len(p) > n and p[:n] == prefix]
+        return [] if all(key.isdigit() for key in next_keys) else {}
+
     for strpath, fill_value in zip(strpaths, fill_values):
         current_node = base_pytree
         current_path = ""
@@ -512,11 +520,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
-                            current_node[key] = []
-                        else:
-                            current_node[key] = {}
+                        current_node[key] = new_node(path_parts[: i + 1])
                 elif is_last and (
                     current_node[key] != fill_value and fill_value is not None
                 ):
@@ -534,11 +538,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
-                            current_node[key] = []
-                        else:
-                            current_node[key] = {}
+                        current_node[key] = new_node(path_parts[: i + 1])
                 elif is_last and (
                     current_node[key] != fill_value and fill_value is not None
                 ):
-- 
2.43.0


From 2b9965e600668ab3f8ba5914e47aeb230b284a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 08/47] fix: batched evaluation without recompilation failed on
 a remainder of scalar samples

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..3ba7fe8 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -213,7 +213,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None, ...], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From 51f516f476e36c425020411699cae195a5fa9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:56 +0000
Subject: [PATCH 09/47] fix: switching between forward and reverse mode
 gradients kept using the previous mode

---
 parametricmatrixmodels/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..6bd7dde 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -728,6 +728,8 @@ class Model(BaseModule):
             self.grad_callable_inputs_options = {
                 "fwd": fwd,
             }
+            # the batched version wraps the previous grad callable
+            self.autobatched_grad_callable_inputs = None
 
             # make non-batched version of the callable so that gradients
             # aren't taken over the batch dimension
@@ -896,6 +898,8 @@ class Model(BaseModule):
         ):
             raw_callable = self._get_callable()
             self.grad_callable_params_options = fwd
+            # the batched version wraps the previous grad callable
+            self.autobatched_grad_callable_params = None
             if fwd:
                 self.grad_callable_params = jax.jacfwd(
                     raw_callable, argnums=0, has_aux=True
-- 
2.43.0


From a729be033f8ffef68410a94bda7db9a8b059dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 10/47] fix: parameter gradients of models with complex
 parameters chose forward mode, which is not available for them

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6bd7dde..59fd398 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -890,8 +890,11 @@ class Model(BaseModule):
 
             # if fwd is None, decide based on input and output sizes
             # fwd is more efficient when the number of input elements is less
-            # than the number of output elements in general
-            fwd = num_input_elems < num_output_elems
+            # than the number of output elements in general, but is not
+            # available for complex parameters
+            fwd = num_input_elems < num_output_elems and not any(
+                np.iscomplexobj(p) for p in jax.tree.leaves(self.get_params())
+            )
 
         if self.grad_callable_params is None or (
             fwd is not None and (self.grad_callable_params_options != fwd)
-- 
2.43.0


From 8a68233046ae456bf2516674fded2364e7e7f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:39 +0000
Subject: [PATCH 11/47] fix: tree mean and scalar helpers (and so every loss)
 rejected trees whose leaves differ in shape

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index dd01187..1ad9eab 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -578,7 +578,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -823,9 +823,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -847,9 +847,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From cc0ef5c55c3fd8b80ba1049642592b7c2d857aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:43 +0000
Subject: [PATCH 12/47] fix: pseudo-Huber loss failed on output trees

---
 parametricmatrixmodels/training.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..ecd058c 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1787,14 +1787,10 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda x: delta**2
+                * (np.sqrt(1 + np.abs(x / delta) ** 2) - 1),
+                error,
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From 72c045006933e2fed87ee5a69ba3a9de91e6db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:11 +0000
Subject: [PATCH 13/47] fix: modules frozen inside a nested model were trained

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 59fd398..a18b8ad 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1260,10 +1260,13 @@ class Model(BaseModule):
         Return a PyTree with the same structure as the model's modules, where
         each leaf node is a boolean indicating whether the corresponding module
         is trainable (i.e. mod.trainable == True and mod.get_params() is not
-        None/())
+        None/()). Nested models contribute such a PyTree of their own.
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> bool | PyTree[bool]:
+            if isinstance(mod, Model):
+                # the modules of a nested model are frozen individually
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From 0cfd43392b113bbff48f6a9920d668b8b529f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 14/47] fix: a callable validation loss without validation data
 was called with the wrong arguments

---
 parametricmatrixmodels/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a18b8ad..8e6ebbc 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1181,9 +1181,10 @@ class Model(BaseModule):
         Y_unc_prov = Y_unc is not None
         loss_fn_ = clean_loss_fn(loss_fn, Y_prov, Y_unc_prov)
 
-        # repeat for validation
-        Y_val_prov = Y_val is not None
-        Y_val_unc_prov = Y_val_unc is not None
+        # repeat for validation, which uses the training data if no validation
+        # data is given
+        Y_val_prov = Y_prov if X_val is None else Y_val is not None
+        Y_val_unc_prov = Y_unc_prov if X_val is None else Y_val_unc is not None
         val_loss_fn_ = (
             clean_loss_fn(val_loss_fn, Y_val_prov, Y_val_unc_prov)
             if val_loss_fn is not None
-- 
2.43.0


From a1f05e9b6a972d8cfbe33c56ed95ae63c7b941d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 15/47] fix: RobustScaler failed on arrays with more than one
 feature

---
 .../preprocessing/robust_scaler.py                | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..422abcd 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -190,11 +190,8 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'transform'."
             )
         return jax.tree.map(
-            lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
-            ),
+            lambda x, median, scale: (x - median)
+            / np.where(np.abs(scale) > self.eps, scale, 1.0),
             X,
             self.median_,
             self.scale_,
@@ -224,11 +221,9 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'inverse_transform'."
             )
         return jax.tree.map(
-            lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
-            ),
+            lambda x_scaled, median, scale: x_scaled
+            * np.where(np.abs(scale) > self.eps, scale, 1.0)
+            + median,
             X_scaled,
             self.median_,
             self.scale_,
-- 
2.43.0


From 1b706ee2134dc1da8999c249fa15ebb3020ad631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 16/47] fix: RobustScaler rejected scalar options for data
 trees

---
 .../preprocessing/robust_scaler.py            | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 422abcd..5373085 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -125,6 +125,14 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+
+        def per_leaf(option):
+            # scalar options apply to every leaf
+            if option is None or np.isscalar(option):
+                return jax.tree.map(lambda _: option, X)
+            return option
+
+        with_scaling = per_leaf(self.with_scaling)
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -132,8 +140,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            per_leaf(self.q_low),
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -143,8 +151,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            per_leaf(self.q_high),
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -155,14 +163,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            per_leaf(self.with_centering),
         )
 
         return self
-- 
2.43.0


From f63aaa1c1c29bb0e3d7300c4770b4ea4057ac1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 17/47] fix: RobustScaler took per-feature quantile arrays for
 lists of quantiles of every feature

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 5373085..e26626f 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -132,10 +132,16 @@ class RobustScaler(Scaler):
                 return jax.tree.map(lambda _: option, X)
             return option
 
+        def quantile(x, q):
+            # q is a scalar or an array with one entry per feature
+            return np.vectorize(np.quantile, signature="(n),()->()")(
+                np.moveaxis(x, 0, -1), q
+            )
+
         with_scaling = per_leaf(self.with_scaling)
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -146,7 +152,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From e9b6453762db33fbf8aaac425accb4402525c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 18/47] fix: MinMaxScaler with an open feature range failed on
 data trees

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..3efcfa3 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -109,11 +109,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
@@ -157,11 +157,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'inverse_transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
-- 
2.43.0


From 3f502f8fb2f7ea59140bda496cf8a466c90a7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 19/47] fix: OneHot sorted the components of multi-component
 rows independently, mixing up rows

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..ad4349b 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # np.unique sorts the rows, which ensures consistent ordering across
+        # runs and platforms
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From 1c2056e7143ad11ab2936cf1f52eed0d1d35b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:18 +0000
Subject: [PATCH 20/47] fix: LowRankAffineHermitianMatrix could not be
 restored, its rank was not stored

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From 589a48f874fd3f67f151ddea317d9f20a5691928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:18 +0000
Subject: [PATCH 21/47] fix: ConcatenateLeaves lost its leaf order and
 separator when restored

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From 17c3bba0f2658b09a997b02c7f4063dacf8d06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:19 +0000
Subject: [PATCH 22/47] fix: MatMul lost a non-default separator when restored

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index 1e0aabe..b9d0ef5 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -424,6 +424,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 1a267e5e505e460af6877b38277b0118f907df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 23/47] fix: models with tuple or nested module containers
 could not be loaded from a file

---
 parametricmatrixmodels/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 8e6ebbc..11618ed 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -45,6 +45,18 @@ from .typing import (
 )
 
 
+def _wrap_containers(data: Dict[str, Any]) -> Dict[str, Any]:
+    # numpy converts lists and tuples to arrays when saving, which loses their
+    # type and fails for ragged nesting. Wrapping them in 0-dimensional object
+    # arrays stores them as they are.
+    wrapped = dict(data)
+    for key, value in data.items():
+        if isinstance(value, (list, tuple)):
+            wrapped[key] = onp.empty((), dtype=object)
+            wrapped[key][()] = value
+    return wrapped
+
+
 class Model(BaseModule):
     r"""
 
@@ -1768,7 +1780,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        np.savez(file, **_wrap_containers(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1788,7 +1800,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **_wrap_containers(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
-- 
2.43.0


From 407b2bf7e8f26990fef559d5a287c2c538f4bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 24/47] fix: serialized modules and copies shared mutable
 hyperparameters with the original

---
 parametricmatrixmodels/modules/basemodule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..95106a4 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -7,6 +7,7 @@ Modules can be combined to create Models.
 
 from __future__ import annotations
 
+import copy
 import inspect
 import warnings
 from abc import ABC, abstractmethod
@@ -815,7 +816,7 @@ class BaseModule(ABC):
 
         return {
             "name": self.name,
-            "hyperparameters": autoserializable_hyperparameters,
+            "hyperparameters": copy.deepcopy(autoserializable_hyperparameters),
             "params": self.get_params(),
             "state": self.get_state(),
             "trainable": self.trainable,
-- 
2.43.0


From b301d1d4492598a56a814819c7b4f22fc2f5347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 25/47] fix: a model saved to a Path without suffix could not
 be loaded from it

---
 parametricmatrixmodels/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 11618ed..b8f82f8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1818,7 +1818,8 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
         data = np.load(file, allow_pickle=True)
-- 
2.43.0


From 3b8d812df647dda125036b018c2ecc5c34616f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:22 +0000
Subject: [PATCH 26/47] fix: popping by a negative index duplicated modules
 stored in a tuple

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b8f82f8..a3732d7 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1478,8 +1478,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = tuple(modules)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From d195d88a72a5d823b5b4a960e2e6428ae1e64c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:22 +0000
Subject: [PATCH 27/47] fix: replacing a module of a model that stores them in
 a tuple failed

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a3732d7..b6f85bf 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1356,7 +1356,12 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                modules = list(self.modules)
+                modules[key] = module
+                self.modules = tuple(modules)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
-- 
2.43.0


From 9d9a8498558b04e83a52d90a825a49451fa9856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 28/47] fix: models made from the same container, or joined
 with +, shared their list of modules

---
 parametricmatrixmodels/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b6f85bf..736c28e 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -45,6 +45,16 @@ from .typing import (
 )
 
 
+def _copy_containers(modules: ModelModules) -> ModelModules:
+    # copy of the (nested) containers, but not of the modules in them, so that
+    # editing a model does not edit others made from the same container
+    if isinstance(modules, dict):
+        return {k: _copy_containers(m) for k, m in modules.items()}
+    if type(modules) in (list, tuple):
+        return type(modules)(_copy_containers(m) for m in modules)
+    return modules
+
+
 def _wrap_containers(data: Dict[str, Any]) -> Dict[str, Any]:
     # numpy converts lists and tuples to arrays when saving, which loses their
     # type and fails for ragged nesting. Wrapping them in 0-dimensional object
@@ -134,7 +144,9 @@ class Model(BaseModule):
         jax.random.key : JAX function to create a random key.
         """
         self._name = name
-        self.modules = modules if modules is not None else []
+        self.modules = (
+            _copy_containers(modules) if modules is not None else []
+        )
         if isinstance(modules, BaseModule):
             self.modules = [modules]
         if rng is None:
@@ -1332,7 +1344,7 @@ class Model(BaseModule):
             if isinstance(module, BaseModule):
                 self.modules = [module]
             else:
-                self.modules = module
+                self.modules = _copy_containers(module)
 
         elif isinstance(key, tuple):
             # KeyPath is just Tuple[Any, ...]
-- 
2.43.0


From 313eaa3dd40d2555a8b95ec341aa73591bc5bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 29/47] fix: append did not append when a container of modules
 was empty

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 736c28e..4b7673a 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1440,7 +1440,7 @@ class Model(BaseModule):
                 modules are stored in a list, tuple, or other structure.
         """
         self.insert_module(
-            len(jax.tree.leaves(self.modules)),
+            len(self.modules),
             module,
             key=key,
         )
-- 
2.43.0


From 5895dc4514dfb9171ad39b35c0732be8b12c6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 30/47] fix: models kept evaluating the old function after a
 nested model was edited

---
 parametricmatrixmodels/model.py              | 25 +++++++++++++++++++-
 parametricmatrixmodels/nonsequentialmodel.py |  1 +
 parametricmatrixmodels/sequentialmodel.py    |  1 +
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4b7673a..b13c9b8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -216,8 +216,13 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._version = object()
+        self._clear_callables()
+
+    def _clear_callables(self) -> None:
+        self._callables_versions = None
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
@@ -230,6 +235,21 @@ class Model(BaseModule):
         self.autobatched_grad_callable_inputs = None
         self.autobatched_grad_callable_inputs_options = None
 
+    def _get_versions(self) -> List[Any]:
+        # changes whenever this model or a model nested in it was edited
+        versions = [self._version]
+        for module in jax.tree.leaves(self.modules):
+            if isinstance(module, Model):
+                versions += module._get_versions()
+        return versions
+
+    def _refresh_callables(self) -> None:
+        # discard the cached callables if anything was edited since
+        versions = self._get_versions()
+        if self._callables_versions != versions:
+            self._clear_callables()
+            self._callables_versions = versions
+
     @abstractmethod
     def compile(
         self,
@@ -601,6 +621,7 @@ class Model(BaseModule):
 
         # assert that the model was compiled for this input shape
         self._verify_input(X)
+        self._refresh_callables()
 
         if self.callable is None:
             self.callable = jax.jit(self._get_callable(), static_argnums=(2,))
@@ -720,6 +741,7 @@ class Model(BaseModule):
                 f"\nReason: {unready_reason}"
             )
         self._verify_input(X)
+        self._refresh_callables()
 
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
@@ -900,6 +922,7 @@ class Model(BaseModule):
                 f"\nReason: {unready_reason}"
             )
         self._verify_input(X)
+        self._refresh_callables()
 
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..873f043 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -438,6 +438,7 @@ class NonSequentialModel(Model):
                 print(f"  {i}: {module_path}")
 
         # set the input and output shapes
+        self._version = object()
         self.input_shape = input_shape
 
         input_progression, output_progression, self.output_shape = (
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..a360049 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,6 +129,7 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
+        self._version = object()
         self.input_shape = input_shape
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
-- 
2.43.0


From ac35443a25ae2099fa1d44cf4eeac5f6d2a1c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:04 +0000
Subject: [PATCH 31/47] fix: graph models with an unused module could not be
 trained, copied or saved

---
 parametricmatrixmodels/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b13c9b8..316ff0e 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -39,6 +39,7 @@ from .typing import (
     HyperParams,
     Inexact,
     List,
+    Params,
     PyTree,
     Serializable,
     Tuple,
@@ -369,8 +370,13 @@ class Model(BaseModule):
 
         # this will fail if the structure of self.modules isn't a prefix of the
         # structure of params
+        def set_module_params(m: BaseModule, p: Params) -> None:
+            # modules that are not in use have no parameters to set
+            if m.is_ready() or len(jax.tree.leaves(p)) > 0:
+                m.set_params(p)
+
         try:
-            jax.tree.map(lambda m, p: m.set_params(p), self.modules, params)
+            jax.tree.map(set_module_params, self.modules, params)
         except ValueError as e:
             raise ValueError(
                 "Structure of params does not match structure of modules. "
-- 
2.43.0


From f22931cef16d3cddc6a3194767ec34b76f072092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:04 +0000
Subject: [PATCH 32/47] fix: the precision of graph models with an unused
 module could not be set

---
 parametricmatrixmodels/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 316ff0e..4ece881 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1077,7 +1077,11 @@ class Model(BaseModule):
                 "complex128 data types."
             )
 
-        jax.tree.map(lambda m: m.set_precision(prec), self.modules)
+        # modules that are not in use have nothing to cast
+        jax.tree.map(
+            lambda m: m.set_precision(prec) if m.is_ready() else None,
+            self.modules,
+        )
 
     # alias for set_precision method that returns self
     def astype(self, dtype: jax.typing.DTypeLike | int, /) -> "Model":
-- 
2.43.0


From 7f495fbe5aab94f99fa687a39363c0faded33249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:04 +0000
Subject: [PATCH 33/47] fix: setting the precision turned integer and boolean
 state into floats

---
 parametricmatrixmodels/modules/basemodule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 95106a4..8ab4d44 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -686,7 +686,10 @@ class BaseModule(ABC):
             Set the precision of a single parameter array, choosing real or
             complex precision based on the original dtype.
             """
-            if np.iscomplexobj(p):
+            if not np.issubdtype(p.dtype, np.inexact):
+                # counters, masks and random keys have no precision
+                return p
+            elif np.iscomplexobj(p):
                 return p.astype(np.complex64 if prec == 32 else np.complex128)
             else:
                 return p.astype(np.float32 if prec == 32 else np.float64)
-- 
2.43.0


From ed9ef2516ecfd679adef6bba99d249fd36534da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:00 +0000
Subject: [PATCH 34/47] fix: graph models with an unused low-rank module could
 not be loaded

---
 parametricmatrixmodels/modules/basemodule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 8ab4d44..63d21f4 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -880,9 +880,10 @@ class BaseModule(ABC):
         # set the hyperparameters
         self.set_hyperparameters(data.get("hyperparameters", {}))
 
-        # if there are trainable parameters, set them
+        # if there are trainable parameters, set them (a module that was not
+        # compiled when it was serialized has none yet)
         params = data.get("params", None)
-        if params is not None:
+        if jax.tree.leaves(params):
             self.set_params(params)
 
         # if there are states, set them
-- 
2.43.0


From 7468edcfb0c943fa650cc66b85845f6dfeb2d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 35/47] fix: calibrating again kept the quantiles of the
 previous calibration

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..af03882 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -813,6 +813,9 @@ class ConformalizedModel(object):
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
 
+        # quantiles cached from a previous calibration are no longer valid
+        self.qhats = {}
+
     def parameter_sensitivity(
         self,
         X: Data,
-- 
2.43.0


From c521fc6ace6834ecaea47c1771dfa2312fde84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 36/47] fix: calibration with label uncertainties failed,
 weighted quantiles were taken over data ordered by weight

---
 .../conformal/conformalizedmodel.py             | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index af03882..86f9842 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1795,10 +1795,19 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    idxs = np.argsort(data, axis=0)
+    data = np.take_along_axis(data, idxs, axis=0)
+    cum_weights = np.cumsum(np.take_along_axis(weights, idxs, axis=0), axis=0)
+
+    def interp(cum_w: np.ndarray, d: np.ndarray) -> np.ndarray:
+        return np.interp(quantiles * cum_w[~0], cum_w, d)
+
+    # one quantile for each of the remaining axes
+    for _ in range(data.ndim - 1):
+        interp = jax.vmap(interp, in_axes=-1, out_axes=-1)
+    return interp(cum_weights, data)
 
 
 def mad(
-- 
2.43.0


From d5c2d08e3f88efc6bb8709620353634814c01266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 37/47] fix: sensitivities disabled at calibration raised
 instead of returning None

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 86f9842..6b63f94 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -831,7 +831,7 @@ class ConformalizedModel(object):
         newline: bool = True,
         clearline: bool = False,
     ) -> Data | None:
-        if not self._parameter_sensitivity:
+        if not tree_util.any(self._parameter_sensitivity):
             return None
 
         if normalize and self._norm_S_params is None:
@@ -916,7 +916,7 @@ class ConformalizedModel(object):
         newline: bool = True,
         clearline: bool = False,
     ) -> Data | None:
-        if not self._input_sensitivity:
+        if not tree_util.any(self._input_sensitivity):
             return None
         if normalize and self._norm_S_input is None:
             raise ValueError(
-- 
2.43.0


From 8e956cd37179e281659414c22aa06ee1af15cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 38/47] fix: stratified bias corrections failed for models with
 more than one output

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 6b63f94..aae9266 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From 8028b67f73a4142e0f2bdee7c5e21df9467e54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 39/47] fix: calibration with training data failed with the
 distance sensitivity disabled

---
 .../conformal/conformalizedmodel.py           | 98 ++++++++++---------
 1 file changed, 51 insertions(+), 47 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index aae9266..16ec483 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -660,46 +660,47 @@ class ConformalizedModel(object):
                 compute_range, self._training_data, self._continuous_features
             )
 
-            # since we want to be able to use KDTree for fast kNN lookup, we
-            # need to convert the non-continuous features to one-hot encoding.
-            # that way the L1 distance between these features is the same as
-            # the binary yes/no distance which is used in the Gower distance
-            self._onehot_training_enc = preprocessing.MixedScaler(
-                jax.tree.map(
-                    lambda cont, dist: (
-                        None if cont or not dist else preprocessing.OneHot()
-                    ),
-                    self._continuous_features,
-                    self._distance_sensitivity,
+            if tree_util.any(self._distance_sensitivity):
+                # since we want to be able to use KDTree for fast kNN lookup, we
+                # need to convert the non-continuous features to one-hot encoding.
+                # that way the L1 distance between these features is the same as
+                # the binary yes/no distance which is used in the Gower distance
+                self._onehot_training_enc = preprocessing.MixedScaler(
+                    jax.tree.map(
+                        lambda cont, dist: (
+                            None if cont or not dist else preprocessing.OneHot()
+                        ),
+                        self._continuous_features,
+                        self._distance_sensitivity,
+                    )
                 )
-            )
-            self._onehot_training_enc.fit(self._training_data)
+                self._onehot_training_enc.fit(self._training_data)
 
-            flat_data = self._prepare_data_for_kdtree(self._training_data)
+                flat_data = self._prepare_data_for_kdtree(self._training_data)
 
-            # before building the KDTree, remove any duplicate points in the
-            # processed training data
-            flat_data_unique = np.unique(flat_data, axis=0)
+                # before building the KDTree, remove any duplicate points in the
+                # processed training data
+                flat_data_unique = np.unique(flat_data, axis=0)
 
-            # build KDTree
-            self._kdtree = KDTree(flat_data_unique)
+                # build KDTree
+                self._kdtree = KDTree(flat_data_unique)
 
-            # query the tree with the training data to get the distance cutoff
-            # for the distance sensitivity
-            distances, _ = self._kdtree.query(
-                flat_data_unique, k=2, p=1.0, workers=-1
-            )
-            # if the nearest neighbor distance is zero (the tree correctly
-            # identified the point itself as the nearest neighbor), we take the
-            # second nearest neighbor distance as the distance to the nearest
-            # neighbor, otherwise (due to numerical error in KDTree) we take
-            # the first nearest neighbor distance
-            nn_distances = np.where(
-                distances[:, 0] == 0, distances[:, 1], distances[:, 0]
-            )
-            self._distance_cutoff = np.quantile(
-                nn_distances, self.nn_dist_quantile
-            )
+                # query the tree with the training data to get the distance cutoff
+                # for the distance sensitivity
+                distances, _ = self._kdtree.query(
+                    flat_data_unique, k=2, p=1.0, workers=-1
+                )
+                # if the nearest neighbor distance is zero (the tree correctly
+                # identified the point itself as the nearest neighbor), we take the
+                # second nearest neighbor distance as the distance to the nearest
+                # neighbor, otherwise (due to numerical error in KDTree) we take
+                # the first nearest neighbor distance
+                nn_distances = np.where(
+                    distances[:, 0] == 0, distances[:, 1], distances[:, 0]
+                )
+                self._distance_cutoff = np.quantile(
+                    nn_distances, self.nn_dist_quantile
+                )
 
         weights = (
             jax.tree.map(lambda x: 1 / x, Y_cal_unc)
@@ -744,17 +745,18 @@ class ConformalizedModel(object):
                     S_input_cal, weights
                 )
 
-            S_dist_cal = self.distance_sensitivity(
-                X_cal,
-                dtype=dtype,
-                normalize=False,
-                verbose=verbose,
-                extra_info="calibration",
-                newline=False,
-            )
-            # no weights for distance sensitivity since it is independent of
-            # the labels
-            self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
+            if tree_util.any(self._distance_sensitivity):
+                S_dist_cal = self.distance_sensitivity(
+                    X_cal,
+                    dtype=dtype,
+                    normalize=False,
+                    verbose=verbose,
+                    extra_info="calibration",
+                    newline=False,
+                )
+                # no weights for distance sensitivity since it is independent of
+                # the labels
+                self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
 
         # compute conformity scores
         u_cal = self.uncertainty_heuristic(
@@ -1689,7 +1691,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From 36884ddc1fc4f99422731e40f637e7249416b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 40/47] fix: distance sensitivity failed for categorical
 features with several components

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 16ec483..a7dccc5 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -646,7 +646,8 @@ class ConformalizedModel(object):
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    # (one-hot encoding changes the number of components)
+                    return np.full((), 2.0, dtype=feature.dtype)
                 return np.ptp(feature, axis=0)
 
             self._iqr_X_train = jax.tree.map(
-- 
2.43.0


From 1f506ff6391de8df952c53eaa3b527055ed13adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 41/47] fix: distance sensitivity failed for outputs with more
 than one axis

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index a7dccc5..a52ae05 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1524,7 +1524,10 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                u = jax.tree.map(
+                    lambda x: x + u_dist.reshape((-1,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From e32bbb5c6bcf90b0236f7ed033b9b1e55e2fb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 42/47] fix: a conformalized model saved to a name without
 suffix could not be loaded from it, and lost the type of its name

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index a52ae05..134614d 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1760,6 +1760,9 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, (str, Path)):
+            file = str(file)
+            file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
@@ -1774,6 +1777,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data.get("conformal_name"), (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From 204204d988bd8e70002d43a88dd9907b33226cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 43/47] fix: input gradients of models with inputs of different
 sizes were refused

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4ece881..b6d3567 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -791,7 +791,7 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-- 
2.43.0


From 759ea731bb7dd0e4fdfee0e2257409c68d74cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:53 +0000
Subject: [PATCH 44/47] fix: one-hot encoding of data trees was refused when
 features differ in their number of categories

---
 parametricmatrixmodels/preprocessing/onehot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index ad4349b..28bdd5b 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -62,7 +62,7 @@ class OneHot(Scaler):
         self,
         X: PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"],
         y: Any | None = None,
-    ) -> PyTree[Inexact[Array, "n num_unique"], " Data"]:
+    ) -> PyTree[Inexact[Array, "n ?num_unique"], " Data"]:
         """
         Encodes the input data as one-hot based on the unique values found
         during fitting. Values not found during fitting are encoded as all
@@ -97,7 +97,7 @@ class OneHot(Scaler):
 
     def inverse_transform(
         self,
-        X_encoded: PyTree[Inexact[Array, "n num_unique"], " Data"],
+        X_encoded: PyTree[Inexact[Array, "n ?num_unique"], " Data"],
         y_encoded: Any | None = None,
     ) -> PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"]:
         """
-- 
2.43.0


From 1c1a5ea266fa004eecbedcb0dcca6d5b4a4fbf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 45/47] fix: models and scalers could not be saved to file
 objects

---
 parametricmatrixmodels/conformal/conformalizedmodel.py |  8 ++++----
 parametricmatrixmodels/model.py                        | 10 +++++-----
 parametricmatrixmodels/preprocessing/scaler.py         |  9 +++++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 134614d..bed6159 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -4,8 +4,8 @@ import operator
 import sys
 import warnings
 from functools import partial
+from io import IOBase
 from pathlib import Path
-from typing import IO
 
 import jax
 import jax.numpy as np
@@ -1706,7 +1706,7 @@ class ConformalizedModel(object):
 
         return conf_model
 
-    def save(self, file: str | IO | Path, /) -> None:
+    def save(self, file: str | IOBase | Path, /) -> None:
         r"""
         Save the conformalized model to a file.
 
@@ -1722,7 +1722,7 @@ class ConformalizedModel(object):
 
         np.savez(file, **data)
 
-    def save_compressed(self, file: str | IO | Path, /) -> None:
+    def save_compressed(self, file: str | IOBase | Path, /) -> None:
         r"""
         Save the conformalized model to a compressed file.
 
@@ -1742,7 +1742,7 @@ class ConformalizedModel(object):
     @classmethod
     def from_file(
         cls,
-        file: str | IO | Path,
+        file: str | IOBase | Path,
         /,
         *,
         strict_package_version: bool = False,
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b6d3567..f804065 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -5,8 +5,8 @@ import sys
 import uuid
 import warnings
 from abc import abstractmethod
+from io import IOBase
 from pathlib import Path
-from typing import IO
 
 import jax
 import jax.numpy as np
@@ -1815,7 +1815,7 @@ class Model(BaseModule):
         )
 
     @jaxtyped(typechecker=beartype)
-    def save(self, file: str | IO | Path, /) -> None:
+    def save(self, file: str | IOBase | Path, /) -> None:
         """
         Save the model to a file.
 
@@ -1834,7 +1834,7 @@ class Model(BaseModule):
         np.savez(file, **_wrap_containers(data))
 
     @jaxtyped(typechecker=beartype)
-    def save_compressed(self, file: str | IO | Path, /) -> None:
+    def save_compressed(self, file: str | IOBase | Path, /) -> None:
         """
         Save the model to a compressed file.
 
@@ -1854,7 +1854,7 @@ class Model(BaseModule):
         onp.savez_compressed(file, **_wrap_containers(data))
 
     def load(
-        self, file: str | IO | Path, /, *, strict_package_version=False
+        self, file: str | IOBase | Path, /, *, strict_package_version=False
     ) -> None:
         """
         Load the model from a file. Supports both compressed and uncompressed
@@ -1901,7 +1901,7 @@ class Model(BaseModule):
 
     @classmethod
     def from_file(
-        cls, file: str | IO | Path, /, *, strict_package_version: bool = False
+        cls, file: str | IOBase | Path, /, *, strict_package_version: bool = False
     ) -> Model:
         """
         Load a model from a file and return an instance of the Model class.
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..65bc70f 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from io import IOBase
 from pathlib import Path
-from typing import IO, final
+from typing import final
 
 import jax
 import jax.numpy as np
@@ -143,7 +144,7 @@ class Scaler(ABC):
         pass
 
     @final
-    def save(self, filepath: IO | Path | str) -> None:
+    def save(self, filepath: IOBase | Path | str) -> None:
         r"""
         Save the scaler to a file.
 
@@ -158,7 +159,7 @@ class Scaler(ABC):
         onp.savez(filepath, **data)
 
     @final
-    def save_compressed(self, filepath: IO | Path | str) -> None:
+    def save_compressed(self, filepath: IOBase | Path | str) -> None:
         r"""
         Save the scaler to a compressed file.
 
@@ -174,7 +175,7 @@ class Scaler(ABC):
 
     @classmethod
     @final
-    def load(cls, filepath: IO | Path | str) -> Scaler:
+    def load(cls, filepath: IOBase | Path | str) -> Scaler:
         r"""
         Load the scaler from a file.
 
-- 
2.43.0


From 2f466fcb8702dd16bfa2e9e2dafaef44fcc6138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 46/47] fix: input uncertainties could not be used, their
 samples were not matched with those of the derivatives

---
 .../conformal/conformalizedmodel.py                | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index bed6159..f4813e4 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -982,11 +982,19 @@ class ConformalizedModel(object):
             # l2 norm of df/dx scaled by uncertainty in inputs
             # divided by number of continuous features
             X_unc = handle_naninf(X_unc)
+
+            def sum_sq_single_sample(
+                df: PyTree[Inexact[Array, "..."]],
+                x_unc: PyTree[Inexact[Array, "..."]],
+            ) -> Inexact[Array, "..."]:
+                return accumulate_sum_sq_over_output_leaves(
+                    u_dtype, jax.tree.map(lambda d: d[None, ...], df), x_unc
+                )[0]
+
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
-                        u_dtype, df, X_unc
-                    ),
+                    # each sample has its own uncertainties
+                    lambda _, df: jax.vmap(sum_sq_single_sample)(df, X_unc),
                     self.model.output_shape,
                     df_dx,
                     is_leaf=tree_util.is_shape_leaf,
-- 
2.43.0


From 890e0861f61b18fe666cc17da443a0955351a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 47/47] fix: nested tuples could not be extended

---
 parametricmatrixmodels/tree_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 1ad9eab..1aca25b 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -552,8 +552,8 @@ def extend_structure_from_strpaths(
                 current_node = current_node[key]
 
     # convert any list nodes that correspond to tuple nodes in the
-    # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    # original base_pytree back to tuples, the innermost first
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0

