From e1033e390d7047bcda35355972cc4c95718b9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 01/17] fix: fold large free values of two-sided bounded arrays
 to valid values

The logistic transform overflowed to nan for free values above about 709,
and rounding could put the folded value above the upper bound.
---
 paragami/numeric_array_patterns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..a863df2 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -107,8 +107,10 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This form of exp(x) / (1 + exp(x)) does not overflow.
+            ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
+            # Rounding must not push the value above the upper bound.
+            return np.minimum((ub - lb) * ratio + lb, ub)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From 5c2490a3a7cebf4e71a039c08a569a52e6947252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 02/17] fix: flatten, random and empty_bool of emptied
 dictionary patterns

Deleting the last entry left a floating point length, and flattening a
dictionary without entries raised an error.
---
 paragami/pattern_containers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..da04536 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -317,13 +317,15 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return int(np.sum([pattern.flat_length(free) for pattern_name, pattern
+                           in self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
-- 
2.43.0


From 4ff0585ebb22d86487d5ad5619fc1a91f9f2c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 03/17] fix: integer lengths for pattern arrays with an empty
 array shape

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index da04536..36e6d5f 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -450,7 +450,7 @@ class PatternArray(Pattern):
         self.__array_shape = tuple(array_shape)
         self.__array_ranges = [range(0, t) for t in self.__array_shape]
 
-        num_elements = np.prod(self.__array_shape)
+        num_elements = int(np.prod(self.__array_shape))
         self.__base_pattern = base_pattern
 
         # Check whether the base_pattern takes values that are numpy arrays.
-- 
2.43.0


From dc0edb358303c574c260ec78ffcfe5aaa38d0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 04/17] fix: keep free_default in the JSON of matrix, simplex
 and container patterns

---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 36e6d5f..1266bae 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -378,7 +379,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -489,7 +490,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -641,7 +643,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..e38f6f2 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..e05356a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -130,7 +130,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -219,7 +220,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From 94f5d1be3ae60b0452e3f58811ad309f21a19292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 05/17] fix: empty(valid=True) of numeric patterns with very
 large bounds

The difference of the bounds overflowed to infinity.
---
 paragami/numeric_array_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index a863df2..d5b013d 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -80,7 +80,7 @@ def _constrain_array_jacobian(free_array, lb, ub):
 def _get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb) + lb
+        return 0.5 * lb + 0.5 * ub
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 659fc2262cfde927f8e3e0c46a9e45ecca41f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/17] fix: fold large free simplex values to simplexes that
 sum to one

Adding the log normalizer to a large maximum lost its precision, so that the
folded value did not pass the pattern's own validation.
---
 paragami/simplex_patterns.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index e05356a..52c95c0 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -29,11 +29,11 @@ def _constrain_simplex_matrix(free_mat):
     reference_col = np.expand_dims(np.full(free_mat.shape[0:-1], 0), axis=-1)
     free_mat_aug = np.concatenate([reference_col, free_mat], axis=-1)
 
-    # Note that autograd needs to update their logsumexp to be in special
-    # not misc before this can be changed.  Furthermore, logsumexp is
-    # not even available in the pypi version of autograd.
-    log_norm = logsumexp(free_mat_aug, axis=-1)
-    return np.exp(free_mat_aug - log_norm)
+    # Subtract the maximum before normalizing so that large free values
+    # neither overflow nor lose the precision of the sum.
+    exp_mat = np.exp(
+        free_mat_aug - np.max(free_mat_aug, axis=-1, keepdims=True))
+    return exp_mat / np.sum(exp_mat, axis=-1, keepdims=True)
 
 
 def _constrain_simplex_jacobian(simplex_vec):
-- 
2.43.0


From 8d6f51df2c9a452d309f62b08b96416928cf41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 07/17] fix: validate_folded reports a wrong shape for matrices
 and simplexes

It raised an error instead of returning False and a message as documented
and as the other patterns do.
---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index e38f6f2..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -273,7 +273,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 52c95c0..d8b2737 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -148,7 +148,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From e31b2260edec865490e4d9c6cc00585d9f1b23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 08/17] fix: reject flat simplex values that are not
 one-dimensional

---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index d8b2737..6d269c8 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -161,6 +161,9 @@ class SimplexArrayPattern(Pattern):
 
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
+        flat_val = np.atleast_1d(flat_val)
+        if len(flat_val.shape) != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         flat_size = self.flat_length(free)
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
-- 
2.43.0


From c99977d0dc7f64eb48d98a3145991547e36993e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 09/17] fix: return dense simplex Jacobians as arrays rather
 than matrices

---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 6d269c8..364f2f4 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -198,7 +198,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -211,7 +211,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From 6633c24335c3171ce778f173ceca8d16606d625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 10/17] fix: accept a 1x1 sparse preconditioner without its
 inverse

---
 paragami/optimization_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..ac103ea 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -200,6 +200,9 @@ class PreconditionedFunction():
         if osp.sparse.issparse(a):
             if a_inv is None:
                 a_inv = osp.sparse.linalg.inv(a)
+                if not osp.sparse.issparse(a_inv):
+                    # scipy returns a 1d array for a 1x1 matrix.
+                    a_inv = np.reshape(a_inv, a.shape)
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From 1e4a8e53bbef4ba20064f4b714eb976b9485da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 11/17] fix: forward derivative of solve for one matrix and
 stacked right-hand sides

With a two-dimensional matrix and a stack of right-hand side matrices, the
derivative with respect to the matrix treated the stack as vectors and was
wrong or raised.
---
 paragami/autograd_supplement_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..e74a242 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -43,8 +43,8 @@ defjvp(inv, inv_jvp)
 def jvp_solve(argnum, g, ans, a, b):
     def broadcast_matmul(a, b):
         return \
-            np.matmul(a, b) if b.ndim == a.ndim \
-            else np.matmul(a, b[..., None])[..., 0]
+            np.matmul(a, b[..., None])[..., 0] if b.ndim == a.ndim - 1 \
+            else np.matmul(a, b)
     if argnum == 0:
         return -broadcast_matmul(np.linalg.solve(a, g), ans)
     else:
-- 
2.43.0


From 8181c8498f7d6e2181cce50624800075d5cbbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 12/17] fix: lock dictionaries of a subclass of PatternDict
 that are set as a member

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 1266bae..fe4b133 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -226,7 +226,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 88fc607c9239d59b608807ec4406c8b5d20ec7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 13/17] fix: Jacobian of two-sided bounds was zero or nan close
 to the upper bound

---
 paragami/numeric_array_patterns.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index d5b013d..a91a8b0 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -71,10 +71,12 @@ def _constrain_array_jacobian(free_array, lb, ub):
             return np.exp(-1 * free_array)
         else:
             # d/dx exp(x) / (1 + exp(x)) =
-            #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
-            return (ub - lb) * ratio * (1 - ratio)
+            #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2 =
+            #    exp(x) / (1 + exp(x)) * 1 / (1 + exp(x))
+            # In this form neither factor overflows or cancels.
+            ratio = np.exp(-1 * np.logaddexp(0.0, -1 * free_array))
+            ratio_comp = np.exp(-1 * np.logaddexp(0.0, free_array))
+            return (ub - lb) * ratio * ratio_comp
 
 
 def _get_inbounds_value(lb, ub):
-- 
2.43.0


From 9f97d4d28d31c0e1562dc8a41bd1157dc91aa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:16 +0000
Subject: [PATCH 14/17] fix: clip integer eigenvalues at limits that are not
 integers

---
 paragami/optimization_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ac103ea..a4ce233 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -36,12 +36,16 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
         ev_min = float(ev_min)
-        eig_val_trunc[np.real(eig_val_trunc) <= ev_min] = ev_min
+        # Do not assign in place, which would round the limit to the
+        # type of an integer array.
+        eig_val_trunc = np.where(
+            np.real(eig_val_trunc) <= ev_min, ev_min, eig_val_trunc)
     if not ev_max is None:
         if not np.isreal(ev_max):
             raise ValueError('ev_max must be real-valued.')
         ev_max = float(ev_max)
-        eig_val_trunc[np.real(eig_val_trunc) >= ev_max] = ev_max
+        eig_val_trunc = np.where(
+            np.real(eig_val_trunc) >= ev_max, ev_max, eig_val_trunc)
     return eig_val_trunc
 
 
-- 
2.43.0


From 01936fa283891472dee5faedbe6a9589ef3efdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 15/17] fix: names and Jacobians of dictionaries without
 members

---
 paragami/pattern_containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index fe4b133..2f6972e 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -335,7 +335,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no members.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
 
         if sparse:
             return sp_jac
@@ -349,7 +350,8 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no members.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
         if sparse:
             return sp_jac
         else:
@@ -416,6 +418,8 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From 921d053bef002b692150a9389efb99cc6638f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 16/17] fix: flatten and Jacobians of pattern arrays and
 simplex arrays without elements

---
 paragami/pattern_containers.py | 8 ++++++--
 paragami/simplex_patterns.py   | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 2f6972e..56b294f 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -594,6 +594,8 @@ class PatternArray(Pattern):
         if not valid:
             raise ValueError(msg)
 
+        if self.flat_length(free) == 0:
+            return np.array([])
         return np.hstack(np.array([
             self.__base_pattern.flatten(
                 folded_val[item], free=free, validate_value=validate_value)
@@ -612,7 +614,8 @@ class PatternArray(Pattern):
             jac = self.__base_pattern.unfreeing_jacobian(
                 folded_val[item], sparse=True)
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no elements.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
 
         if sparse:
             return sp_jac
@@ -628,7 +631,8 @@ class PatternArray(Pattern):
             jac = self.__base_pattern.freeing_jacobian(
                 folded_val[item], sparse=True)
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no elements.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
 
         if sparse:
             return sp_jac
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 364f2f4..f2558cd 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -193,7 +193,8 @@ class SimplexArrayPattern(Pattern):
         for item in itertools.product(*array_ranges):
             jac = _unconstrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no elements.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
 
         if sparse:
             return sp_jac
@@ -206,7 +207,8 @@ class SimplexArrayPattern(Pattern):
         for item in itertools.product(*array_ranges):
             jac = _constrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        # The first block makes this work when there are no elements.
+        sp_jac = block_diag([coo_matrix((0, 0))] + jacobians, format='coo')
 
         if sparse:
             return sp_jac
-- 
2.43.0


From e71387f084cef2136731cab5094f41e2236f2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:53 +0000
Subject: [PATCH 17/17] fix: log a copy of the point, which the caller may
 change in place later

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index a4ce233..0662e38 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -465,7 +465,8 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # The caller may change ``x`` in place later.
+        self.optimization_log.append((num_f_evals, copy.deepcopy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0

