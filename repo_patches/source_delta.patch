From dd0403a288720f70850f9fff6ec321eb2a3ffbb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 01/27] fix: default value of a doubly bounded parameter lies
 inside its bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..4fe3aa5 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From b77a0c7debb6175c66a7a0ce5e970f1674fdc1a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 02/27] fix: reject every wrong shape when setting a collection
 of matrices

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..0e08369 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,7 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             print(val.shape)
             print(self.__shape)
             raise ValueError('Array is the wrong size')
-- 
2.43.0


From 7cda0c50267e86ba7be4c4fb64482962e4d9a12b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 03/27] fix: Wishart scale matrix has the requested size

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..3b73bf2 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From 7a102b3b0aec32a8d3817876008f050bf944947a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 04/27] fix: expected inverse of a Wishart matrix

---
 LinearResponseVariationalBayes/WishartParams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 3b73bf2..ad5b6fd 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -20,7 +20,8 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From a57313e74444ed123c8f15cb2fc911a6919e5f69 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 05/27] fix: lognormal variance in the moment parameterization

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 85d39a397a06b39cbb214c3537e57d689700d213 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 06/27] fix: default shape and length of an array of positive
 definite matrices

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 0e08369..66da4b6 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -470,7 +470,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From fef629e4956058806a233b136f888dd3b80564e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 07/27] fix: a scalar parameter rejects values that are not
 scalar

---
 LinearResponseVariationalBayes/Parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4fe3aa5..e24a7d9 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -115,6 +115,9 @@ class ScalarParam(object):
         #     raise ValueError(error_msg)
         # if val > self.__ub:
         #     raise ValueError('val is greater than the upper bound.')
+        if np.size(val) != 1:
+            raise ValueError('Wrong size for scalar ' + self.name +
+                             '.  Expected: 1, got ' + str(np.size(val)))
         self.__val = val
     def get(self):
         return self.__val
-- 
2.43.0


From 9d312bc9cb92c38f240dd74764b7384d2f7df98a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 08/27] fix: transform derivatives leave the parameter (and
 what it was copied from) alone

---
 .../MatrixParameters.py                         | 17 +++++++++++++----
 LinearResponseVariationalBayes/Parameters.py    |  9 ++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 66da4b6..7490cf6 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,10 +146,6 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
     def names(self):
@@ -176,6 +172,19 @@ class PosDefMatrixParam(object):
     def free_to_vector(self, free_val):
         self.set_free(free_val)
         return self.get_vector()
+    # These will be dense, so just use autograd directly.  Differentiate the
+    # transform rather than self.free_to_vector so that evaluating a derivative
+    # leaves the value of the parameter alone.
+    def free_to_vector_jac_dense(self, free_val):
+        if free_val.size != self.__vec_size:
+            raise ValueError('Free value is the wrong length')
+        return pos_def_matrix_free_to_vector_jac(
+            free_val, diag_lb=self.__diag_lb)
+    def free_to_vector_hess_dense(self, free_val):
+        if free_val.size != self.__vec_size:
+            raise ValueError('Free value is the wrong length')
+        return pos_def_matrix_free_to_vector_hess(
+            free_val, diag_lb=self.__diag_lb)
     def free_to_vector_jac(self, free_val):
         return coo_matrix(self.free_to_vector_jac_dense(free_val))
     def free_to_vector_hess(self, free_val):
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index e24a7d9..5f0839c 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,9 +93,6 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ': ' + str(self.__val)
     def names(self):
@@ -130,6 +127,12 @@ class ScalarParam(object):
     def free_to_vector(self, free_val):
         self.set_free(free_val)
         return self.get()
+    # Differentiate the transform rather than self.free_to_vector so that
+    # evaluating a derivative leaves the value of the parameter alone.
+    def free_to_vector_jac_dense(self, free_val):
+        return constrain_scalar_jac(free_val, self.__lb, self.__ub)
+    def free_to_vector_hess_dense(self, free_val):
+        return constrain_scalar_hess(free_val, self.__lb, self.__ub)
     def free_to_vector_jac(self, free_val):
         return coo_matrix(self.free_to_vector_jac_dense(free_val))
     def free_to_vector_hess(self, free_val):
-- 
2.43.0


From f40d4545e12d04c0bcaa4ce662defab30282793b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 09/27] fix: sizes and indices of a parameter dictionary follow
 its contents

---
 .../ParameterDictionary.py                    | 45 +++++++++++--------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 46ff59b..3b1b9a7 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -19,13 +19,7 @@ import time
 class ModelParamsDict(object):
     def __init__(self, name='ModelParamsDict'):
         self.param_dict = OrderedDict()
-        self.free_indices_dict = OrderedDict()
-        self.vector_indices_dict = OrderedDict()
         self.name = name
-        # You will want free_size and vector_size to be different when you
-        # are encoding simplexes.
-        self.__free_size = 0
-        self.__vector_size = 0
 
         self.values = ModelParamsDictValues(self)
 
@@ -38,12 +32,25 @@ class ModelParamsDict(object):
 
     def push_param(self, param):
         self.param_dict[param.name] = param
-        self.free_indices_dict[param.name] = \
-            range(self.__free_size, self.__free_size + param.free_size())
-        self.vector_indices_dict[param.name] = \
-            range(self.__vector_size, self.__vector_size + param.vector_size())
-        self.__free_size = self.__free_size + param.free_size()
-        self.__vector_size = self.__vector_size + param.vector_size()
+
+    # The locations of each parameter in the free and vector representations.
+    # These follow the current contents, which may change after a parameter
+    # is pushed:  a parameter with the same name may replace it, or, if it is
+    # itself a dictionary, it may grow.
+    @property
+    def free_indices_dict(self):
+        return self.__get_indices_dict(lambda param: param.free_size())
+    @property
+    def vector_indices_dict(self):
+        return self.__get_indices_dict(lambda param: param.vector_size())
+    def __get_indices_dict(self, get_size):
+        indices_dict = OrderedDict()
+        offset = 0
+        for name, param in self.param_dict.items():
+            indices_dict[name] = range(offset, offset + get_size(param))
+            offset += get_size(param)
+        return indices_dict
+
     def set_name(self, name):
         self.name = name
     def dictval(self):
@@ -53,10 +60,10 @@ class ModelParamsDict(object):
         return result
 
     def set_free(self, vec):
-        if vec.size != self.__free_size:
+        if vec.size != self.free_size():
             error_string = \
                 'Wrong size for parameter {}.  Expected {}, got {}'.format(
-                    self.name, str(self.__free_size), str(vec.size))
+                    self.name, str(self.free_size()), str(vec.size))
             raise ValueError(error_string)
         offset = 0
         for param in self.param_dict.values():
@@ -86,10 +93,10 @@ class ModelParamsDict(object):
         return hessians
 
     def set_vector(self, vec):
-        if vec.size != self.__vector_size:
+        if vec.size != self.vector_size():
             error_string = \
                 'Wrong size for parameter {}.  Expected {}, got {}'.format(
-                    self.name, str(self.__vector_size), str(vec.size))
+                    self.name, str(self.vector_size()), str(vec.size))
             raise ValueError(error_string)
         offset = 0
         for param in self.param_dict.values():
@@ -101,10 +108,12 @@ class ModelParamsDict(object):
     def names(self):
         return np.concatenate(
             [ np.atleast_1d(param.names()) for param in self.param_dict.values()])
+    # You will want free_size and vector_size to be different when you
+    # are encoding simplexes.
     def free_size(self):
-        return self.__free_size
+        return sum([ param.free_size() for param in self.param_dict.values() ])
     def vector_size(self):
-        return self.__vector_size
+        return sum([ param.vector_size() for param in self.param_dict.values() ])
 
     def get(self):
         return self.values
-- 
2.43.0


From b5be4006632a623233a4fe4e20eb7514267fa490 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 10/27] fix: the sensitivity classes use the Hessian they are
 given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..59d11fe 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -576,7 +576,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
-- 
2.43.0


From af57319d9875e02f3e6369310d859ad1ec0a34e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 11/27] fix: sensitivity in the requested (free or vector)
 parameterization

---
 .../ModelSensitivity.py                          | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 59d11fe..74ce544 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -588,14 +591,19 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            self.joint_objective.cache_and_eval(
+                self.joint_objective._fun_hessian12,
+                self.input_val0, self.hyper_val0,
+                self.input_is_free, self.hyper_is_free)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From b334ccf91ae3352953c0358ebbc912b94481c503 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 12/27] fix: consolidate all, not only some, of the like
 derivative terms

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 74ce544..593bcd7 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,7 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From 99a1ce9fcdfe52e312806f37a78fdca4254d4564 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 13/27] fix: Taylor expansion of order two and higher with a
 partial hyperparameter objective

---
 .../ModelSensitivity.py                          | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 593bcd7..c27b757 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -401,6 +401,8 @@ class ParametricSensitivityTaylorExpansion(object):
             self.input_par, self.objective_functor)
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
+        self.full_joint_objective = obj_lib.TwoParameterObjective(
+            self.input_par, self.hyper_par, self.objective_functor)
 
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
@@ -435,6 +437,13 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    # The same as objective_gradient, but using the whole objective even when
+    # hyper_par_objective_functor is set.
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_joint_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -460,6 +469,13 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        # The terms without any hyperparameter derivatives need the full
+        # objective, not only the part that depends on the hyperparameter.
+        full_deriv = self.full_objective_gradient
+        for k in range(1, self.order + 1):
+            full_deriv = append_jvp(full_deriv, num_base_args=2, argnum=0)
+            self.eval_g_derivs[k][0] = full_deriv
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From de725714ec0927b7020221fd79439ba17bee6af6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 14/27] fix: linear prediction of the output parameter starts
 from its value at the optimum

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..0f974a1 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = \
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 20b0ea974350aab11f66e04ad353d5acdfc6093b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 15/27] fix: log density of a univariate normal

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 585928d72f959e552ae6c25fc401ec9b6d59c7ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 16/27] fix: optimize with a sparse preconditioner

---
 .../OptimizationUtils.py                           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/OptimizationUtils.py b/LinearResponseVariationalBayes/OptimizationUtils.py
index 8633ced..a9c1a7b 100644
--- a/LinearResponseVariationalBayes/OptimizationUtils.py
+++ b/LinearResponseVariationalBayes/OptimizationUtils.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy as sp
+import scipy.sparse
 
 # Get the matrix inverse square root of a symmetric matrix with eigenvalue
 # thresholding.  This is particularly useful for calculating preconditioners.
@@ -41,6 +42,15 @@ def set_objective_preconditioner(
     return hessian, inv_hess_sqrt, hessian_corrected
 
 
+# The conditioned value corresponding to the unconditioned init_x.  Like in
+# the objective, the preconditioner may be sparse.
+def get_conditioned_init_x(objective, init_x):
+    preconditioner = objective.preconditioner
+    if sp.sparse.issparse(preconditioner):
+        preconditioner = preconditioner.toarray()
+    return np.linalg.solve(preconditioner, init_x)
+
+
 def minimize_objective_trust_ncg(
     objective, init_x, precondition,
     maxiter = 50, gtol = 1e-6, disp = True,
@@ -53,7 +63,7 @@ def minimize_objective_trust_ncg(
     objective.preconditioning = precondition
     if precondition:
         assert objective.preconditioner is not None
-        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
+        init_x_cond = get_conditioned_init_x(objective, init_x)
         obj_opt = sp.optimize.minimize(
             lambda par: objective.fun_free_cond(par, verbose=disp),
             x0=init_x_cond,
@@ -88,7 +98,7 @@ def minimize_objective_bfgs(
     objective.preconditioning = precondition
     if precondition:
         assert objective.preconditioner is not None
-        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
+        init_x_cond = get_conditioned_init_x(objective, init_x)
         obj_opt = sp.optimize.minimize(
             lambda par: objective.fun_free_cond(par, verbose=disp),
             x0=init_x_cond,
-- 
2.43.0


From cf9f11ed44d022873940858a8baabfebfde3f361 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 17/27] fix: the vector representation is a copy, like the free
 representation

---
 LinearResponseVariationalBayes/Parameters.py       | 10 +++++-----
 LinearResponseVariationalBayes/ProjectionParams.py |  4 ++--
 LinearResponseVariationalBayes/SimplexParams.py    |  4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 5f0839c..4ba684e 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -144,9 +144,9 @@ class ScalarParam(object):
                  for ind in range(hess_dense.shape[0]) ]
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return np.reshape(self.__val, 1)
+        return np.reshape(copy.copy(self.__val), 1)
 
     def size(self):
         return 1
@@ -225,9 +225,9 @@ class VectorParam(object):
 
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return self.__val
+        return copy.copy(self.__val)
 
     def size(self):
         return self.__size
@@ -316,7 +316,7 @@ class ArrayParam(object):
                 'Wrong size for array {}.  Expected {}, got {}'.format(
                     self.name, str(self.vector_size()), str(val.size))
             raise ValueError(error_string)
-        self.set(val.reshape(self.__shape))
+        self.set(copy.copy(val).reshape(self.__shape))
     def get_vector(self):
         return self.__val.flatten()
 
diff --git a/LinearResponseVariationalBayes/ProjectionParams.py b/LinearResponseVariationalBayes/ProjectionParams.py
index ff7040e..71bb1cb 100644
--- a/LinearResponseVariationalBayes/ProjectionParams.py
+++ b/LinearResponseVariationalBayes/ProjectionParams.py
@@ -88,9 +88,9 @@ class SubspaceVectorParam(object):
 
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return self.__val
+        return copy.copy(self.__val)
 
     def dim(self):
         return self.__dim
diff --git a/LinearResponseVariationalBayes/SimplexParams.py b/LinearResponseVariationalBayes/SimplexParams.py
index 5828e26..311e670 100644
--- a/LinearResponseVariationalBayes/SimplexParams.py
+++ b/LinearResponseVariationalBayes/SimplexParams.py
@@ -1,3 +1,5 @@
+import copy
+
 import LinearResponseVariationalBayes as vb
 
 import autograd
@@ -157,7 +159,7 @@ class SimplexParam(object):
     def set_vector(self, vec_val):
         if len(vec_val) != self.vector_size():
             raise ValueError('Wrong vector size for SimplexParam ' + self.name)
-        self.set(np.reshape(vec_val, self.__shape))
+        self.set(np.reshape(copy.copy(vec_val), self.__shape))
     def get_vector(self):
         return self.__val.flatten()
     def get_vector_indices(self, row):
-- 
2.43.0


From 131d35a124f3fee745686cff4218a941ffeadb51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 18/27] fix: the expected inverse of a Wishart matrix can be
 differentiated

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index ad5b6fd..6f4ab5b 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -1,7 +1,7 @@
 import LinearResponseVariationalBayes as vb
 import LinearResponseVariationalBayes.ExponentialFamilies as ef
 
-import numpy as np
+import autograd.numpy as np
 
 class WishartParam(vb.ModelParamsDict):
     def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
-- 
2.43.0


From df3a8aeb4d5b2fd8d2c98c1dc15b85c2021fd644 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 19/27] fix: ScalarParam.free_to_vector returned the
 parameter's own array

With an array as free value, the result was the array which the parameter
holds, so writing into it changed the parameter.  Return a copy, as the other
parameters do.
---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4ba684e..fee1894 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -126,7 +126,7 @@ class ScalarParam(object):
 
     def free_to_vector(self, free_val):
         self.set_free(free_val)
-        return self.get()
+        return self.get_vector()
     # Differentiate the transform rather than self.free_to_vector so that
     # evaluating a derivative leaves the value of the parameter alone.
     def free_to_vector_jac_dense(self, free_val):
-- 
2.43.0


From 6ffcab1819f8f60528614b71ebca6787a59b8210 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 20/27] fix: the log of an objective kept references to the
 points

Several of scipy's optimizers (L-BFGS-B, SLSQP, COBYLA) write each new point
into the array of the previous one, so that all entries of the log were the
last point.
---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 0f974a1..d915408 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -11,7 +11,7 @@ import json_tricks
 import scipy as sp
 from scipy import sparse
 
-from copy import deepcopy
+from copy import copy, deepcopy
 
 import time
 
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # Some optimizers write the next point into the same array.
+        x = copy(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0


From cec1456c94079a324fd0b067b87318de6da9ab3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 21/27] fix: doubly bounded values could exceed their upper
 bound or be nan

---
 LinearResponseVariationalBayes/Parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index fee1894..dfe02fe 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -57,8 +57,9 @@ def constrain(free_vec, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_vec)
         else:
-            exp_vec = np.exp(free_vec)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This form does not overflow, and rounding may not carry the value
+            # above the upper bound.
+            return np.minimum(ub, (ub - lb) / (1 + np.exp(-1 * free_vec)) + lb)
 
 constrain_scalar_jac = autograd.jacobian(constrain)
 constrain_scalar_hess = autograd.hessian(constrain)
-- 
2.43.0


From f390eecadd6d35ce360a0dab8f468075139c91e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 22/27] fix: expected logistic terms of large linear predictors
 were infinite

---
 LinearResponseVariationalBayes/Modeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index 31515ed..bfbdd18 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -28,7 +28,7 @@ def get_e_logistic_term(y, z_mean, z_sd, std_draws):
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
     logit_term = \
-        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
+        np.sum(np.logaddexp(0., z_draws)) / std_draws.size
     return np.sum(y * z_mean) - logit_term
 
 
@@ -45,7 +45,7 @@ def get_e_logistic_term_guass_hermite(
     # we add the sample means for all the observations.
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
-    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
+    logit_term = gh_w * np.logaddexp(0., z_vals) / np.sqrt(np.pi)
     if aggregate_all:
         return np.sum(logit_term)
     else:
-- 
2.43.0


From c1ae6a8b069be4280952731cd1bccb28b45b3d2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 23/27] fix: derivatives of the expected log of a logit normal
 variable far in the tail were nan

---
 .../ExponentialFamilies.py                           | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/LinearResponseVariationalBayes/ExponentialFamilies.py b/LinearResponseVariationalBayes/ExponentialFamilies.py
index 3523fd2..1806374 100644
--- a/LinearResponseVariationalBayes/ExponentialFamilies.py
+++ b/LinearResponseVariationalBayes/ExponentialFamilies.py
@@ -152,15 +152,9 @@ def get_e_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
 def get_e_log_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
     # get expectation of Elog(X) and E[1 - log(X)] when X follows a logit normal
 
-    # the function below is log(expit(v))
-    log_v = lambda x : np.maximum(-np.log(1 + np.exp(-x)), -1e16) * (x > -1e2)\
-                                + x * (x <= -1e2)
-
-    # I believe that the above will avoid the numerical issues. If x is very small,
-    # log(1 + e^(-x)) is basically -x, hence the two cases.
-    # the maximum in the first term is taken so that when
-    # -np.log(1 + np.exp(-x)) = -Inf, it really just returns -1e16;
-    # apparently -Inf * 0.0 is NaN in python.
+    # the function below is log(expit(v)), which logaddexp evaluates without
+    # overflow for every v, together with its derivatives.
+    log_v = lambda x : -np.logaddexp(0., -x)
 
     e_log_v = get_e_fun_normal(lognorm_means, lognorm_infos, \
                             gh_loc, gh_weights, log_v)
-- 
2.43.0


From 865befe0b9394457afea5de672dc00fd04bfe50f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 24/27] fix: positive definite matrices lost the precision of
 far diagonal free values

Adding the transformed diagonal and subtracting the original one rounded
exp(free) away: a diagonal free value of -40 gave a singular matrix, and -30
came back wrong in the third digit.
---
 LinearResponseVariationalBayes/MatrixParameters.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 7490cf6..9ce77f1 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -85,8 +85,8 @@ def exp_matrix_diagonal(mat):
     # make_diagonal() is only defined in the autograd version of numpy
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    # Adding the diagonal only to subtract it again would round the exp away.
+    return mat_exp_diag + mat * (1 - np.eye(mat.shape[0]))
 
 
 def log_matrix_diagonal(mat):
@@ -94,8 +94,7 @@ def log_matrix_diagonal(mat):
     # make_diagonal() is only defined in the autograd version of numpy
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    return mat_log_diag + mat * (1 - np.eye(mat.shape[0]))
 
 
 def pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From 45e9e816c8486c876749e3546375098e02bef757 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 25/27] fix: derivatives of a simplex with a single category

free_to_vector_jac and free_to_vector_hess added an offset to a range object,
which fails when there are no free columns to broadcast against.
---
 LinearResponseVariationalBayes/SimplexParams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/SimplexParams.py b/LinearResponseVariationalBayes/SimplexParams.py
index 311e670..0639a2f 100644
--- a/LinearResponseVariationalBayes/SimplexParams.py
+++ b/LinearResponseVariationalBayes/SimplexParams.py
@@ -109,7 +109,7 @@ class SimplexParam(object):
         jac_rows = []
         jac_cols = []
         grads = []
-        free_cols = range(self.free_shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
         vec_cols = range(self.shape()[1])
         for row in range(self.shape()[0]):
             # Each of the output depends only on one row of the input.
@@ -129,7 +129,7 @@ class SimplexParam(object):
 
 
     def free_to_vector_hess(self, free_val):
-        free_cols = range(self.free_shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
         vec_cols = range(self.shape()[1])
         hesses = []
         hess_shape = (self.free_size(), self.free_size())
-- 
2.43.0


From d542edfedb2349762add16a9267f0962b3ea7387 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 26/27] fix: a parameter dictionary with no parameters

Getting the free value, the vector, the names or the Jacobian of an empty
dictionary, alone or inside another one, concatenated an empty list.
---
 LinearResponseVariationalBayes/ParameterDictionary.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 3b1b9a7..b0717fa 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -12,7 +12,7 @@ from LinearResponseVariationalBayes import Parameters as par
 from LinearResponseVariationalBayes.Parameters import \
     free_to_vector_jac_offset, free_to_vector_hess_offset
 
-from scipy.sparse import block_diag
+from scipy.sparse import block_diag, coo_matrix
 
 import time
 
@@ -69,6 +69,8 @@ class ModelParamsDict(object):
         for param in self.param_dict.values():
             offset = par.set_free_offset(param, vec, offset)
     def get_free(self):
+        if not self.param_dict:
+            return np.array([])
         return np.hstack([ par.get_free() for par in self.param_dict.values() ])
 
     def free_to_vector(self, free_val):
@@ -82,6 +84,8 @@ class ModelParamsDict(object):
             free_offset, vec_offset, param_jac = free_to_vector_jac_offset(
                 param, free_val, free_offset, vec_offset)
             jacobians.append(param_jac)
+        if not jacobians:
+            return coo_matrix((0, 0))
         return block_diag(jacobians)
     def free_to_vector_hess(self, free_val):
         free_offset = 0
@@ -102,10 +106,14 @@ class ModelParamsDict(object):
         for param in self.param_dict.values():
             offset = par.set_vector_offset(param, vec, offset)
     def get_vector(self):
+        if not self.param_dict:
+            return np.array([])
         return np.hstack(
             [ par.get_vector() for par in self.param_dict.values() ])
 
     def names(self):
+        if not self.param_dict:
+            return np.array([], dtype=str)
         return np.concatenate(
             [ np.atleast_1d(param.names()) for param in self.param_dict.values()])
     # You will want free_size and vector_size to be different when you
-- 
2.43.0


From cbf8b75e2464bd4b1e647b6369fd0fc92fba962d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 27/27] fix: let autograd differentiate matvec_mul_last2dims by
 y with extra dimensions

---
 LinearResponseVariationalBayes/regression_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LinearResponseVariationalBayes/regression_utils.py b/LinearResponseVariationalBayes/regression_utils.py
index 31579b2..ed115a5 100644
--- a/LinearResponseVariationalBayes/regression_utils.py
+++ b/LinearResponseVariationalBayes/regression_utils.py
@@ -46,6 +46,12 @@ def matvec_mul_last2dims(x, y):
 
     assert d2 <= d1
 
+    # Autograd cannot differentiate an einsum which sums over an index that only
+    # one argument has, so sum over the extra dimensions separately.
+    if d1 > d2:
+        y = np.sum(y, axis=tuple(range(d2, d1)))
+        d1 = d2
+
     einsum_indx1 = list(range(d2))
     einsum_indx1.append(d1)
     einsum_indx1.append(d1 + 1)
-- 
2.43.0

