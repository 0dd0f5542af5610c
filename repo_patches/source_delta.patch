From e48b29c41431bafa7d47318938f592fea516ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 01/43] fix: bound the line searches of the regularized splines

The bracketed, quadratic and cubic searches could reduce the same interval
for ever, and backtracking never ended when no step decreases the objective.
---
 smt/utils/line_search.py | 54 ++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..e19a411 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -28,6 +28,9 @@ class LineSearch(object):
     Base line search class.
     """
 
+    # Maximum number of reductions of the step (or of the bracketing interval)
+    max_iter = 100
+
     def __init__(self, x, dx, func, grad, u1=1.0e-4, u2=0.9):
         """
         Initialize all attributes for the given problem.
@@ -123,9 +126,12 @@ class BacktrackingLineSearch(LineSearch):
 
     def __call__(self, initial_a=1.0, rho=0.5):
         a = initial_a
-        while not self._func_decreased(a):
+        for ind in range(self.max_iter):
+            if self._func_decreased(a):
+                return self.x + a * self.dx
             a *= rho
-        return self.x + a * self.dx
+        # No acceptable step along this direction: stay at the current location.
+        return self.x + 0.0
 
 
 class BracketedLineSearch(LineSearch):
@@ -167,12 +173,19 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # The last step known to satisfy the sufficient decrease criterion.
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
         """
-        while True:
-            a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+        for ind in range(self.max_iter):
+            try:
+                a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+            except np.linalg.LinAlgError:
+                # The interval is too small to be interpolated.
+                break
 
             if not self._func_decreased(a) or p > p1:
                 # If still lower than initial f or still higher than low
@@ -193,6 +206,9 @@ class BracketedLineSearch(LineSearch):
                 p1 = p
                 dp1 = dp
 
+        # The interval cannot be reduced further: a1 is its best step so far.
+        return self.x + a1 * self.dx
+
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
         """
         Estimate the minimum as the midpoint.
@@ -218,7 +234,10 @@ class QuadraticLineSearch(BracketedLineSearch):
         d0 = c1
         d1 = 2 * c2
 
-        a = -d0 / d1
+        a = -d0 / d1 if d1 != 0.0 else np.nan
+        if not np.isfinite(a):
+            # The quadratic has no minimum: fall back on the midpoint.
+            a = 0.5 * a1 + 0.5 * a2
         p = self._phi(a)
         dp = self._dphi(a)
         return a, p, dp
@@ -240,21 +259,18 @@ class CubicLineSearch(BracketedLineSearch):
         d0 = c1
         d1 = 2 * c2
         d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
-
         a = None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
+        for r in np.roots([d2, d1, d0]):
+            if np.isreal(r) and (a1 <= r.real <= a2 or a2 <= r.real <= a1):
+                px = self._phi(r.real)
+                if px < p:
+                    a = r.real
+                    p = px
+        if a is None:
+            # The cubic has no minimum in the interval: fall back on the midpoint.
+            a = 0.5 * a1 + 0.5 * a2
+            p = self._phi(a)
+        dp = self._dphi(a)
 
         return a, p, dp
-- 
2.43.0


From cb4fb8059d81d6931789055964f675b554925451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 02/43] fix: training no longer alters the options the user set

---
 smt/surrogate_models/surrogate_model.py | 12 +++++++++---
 smt/utils/options_dictionary.py         | 10 +++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..504f1e9 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -266,9 +266,15 @@ class SurrogateModel(object, metaclass=ABCMeta):
         else:
             self.printer._title("Training")
 
-        # Train the model using the specified model-method
-        with self.printer._timed_context("Training", "training"):
-            self._train()
+        # Train the model using the specified model-method; the training may adapt
+        # the options to the training data, which must not alter the user's options
+        options = self.options
+        self.options = options.clone()
+        try:
+            with self.printer._timed_context("Training", "training"):
+                self._train()
+        finally:
+            self.options = options
 
     def predict_values(self, x: np.ndarray) -> np.ndarray:
         """
diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..e9c7c9f 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -3,6 +3,9 @@ Author: Dr. John T. Hwang <hwangjt@umich.edu>
         
 This package is distributed under New BSD license.
 """
+from copy import deepcopy
+
+import numpy as np
 
 
 class OptionsDictionary(object):
@@ -31,7 +34,12 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = dict(self._dict)
+        clone._dict = {
+            name: deepcopy(value)
+            if isinstance(value, (list, dict, np.ndarray))
+            else value
+            for name, value in self._dict.items()
+        }
         clone._declared_entries = dict(self._declared_entries)
         return clone
 
-- 
2.43.0


From a3fff46db44eb86edb3f66778193b6139600e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 03/43] fix: retraining with derivatives, repeated points or
 updated data starts from the current training set

---
 smt/surrogate_models/gekpls.py          |  1 -
 smt/surrogate_models/krg_based.py       |  3 +++
 smt/surrogate_models/surrogate_model.py | 11 ++++++-----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..73a60cf 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,7 +49,6 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
                 X = np.vstack((X, XX))
                 y = np.vstack((y, yy))
 
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..149644a 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -122,6 +122,9 @@ class KrgBased(SurrogateModel):
         if self.name not in ["Kriging", "MGP"]:
             X, y = self._compute_pls(X.copy(), y.copy())
 
+        # Number of points the model is built on
+        self.nt = X.shape[0]
+
         self._check_param()
 
         # Center and scale X and y
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 504f1e9..ec45102 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -151,7 +151,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -164,6 +164,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
+        self.ny = yt.shape[1]
         self.training_points[name][kx][1] = np.array(yt)
 
     def set_training_derivatives(
@@ -225,13 +226,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training points must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From 9919b3e47de1c22a606001edc408f58ced78f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 04/43] fix: a seeded GENN training is repeatable and leaves
 the global random state alone

---
 smt/surrogate_models/genn.py  |  2 +-
 smt/utils/neural_net/data.py  |  4 ++--
 smt/utils/neural_net/model.py | 13 +++++++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..ab59893 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,7 +189,7 @@ class GENN(SurrogateModel):
         n_y = Y.shape[0]
 
         # Train neural net
-        self.model = Model.initialize(n_x, n_y, deep, wide)
+        self.model = Model.initialize(n_x, n_y, deep, wide, seed)
         self.model.train(
             X=X,
             Y=Y,
diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..a5703da 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -95,12 +95,12 @@ def random_mini_batches(X, Y, J, mini_batch_size=64, seed=None):
     :param: mini_batch_size: size of the mini-batches, integer
     :return: mini_batches: list of synchronous (mini_batch_X, mini_batch_Y, mini_batch_J)
     """
-    np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
     m = X.shape[1]
     mini_batches = []
 
     # Step 1: Shuffle (X, Y, J)
-    permutations = list(np.random.permutation(m))
+    permutations = list(rng.permutation(m))
     shuffled_X = X[:, permutations].reshape(X.shape)
     shuffled_Y = Y[:, permutations].reshape(Y.shape)
     if J is not None:
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..9507ddf 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -23,7 +23,7 @@ from smt.utils.neural_net.data import normalize_data, load_csv
 # ------------------------------------ S U P P O R T   F U N C T I O N S -----------------------------------------------
 
 
-def initialize_parameters(layer_dims=None):
+def initialize_parameters(layer_dims=None, rng=None):
     """
     Initialize neural network given topology using "He" initialization
 
@@ -31,6 +31,7 @@ def initialize_parameters(layer_dims=None):
     :param: activation: the activation function to use: tanh, sigmoid, or relu (choice dependens on problem type)
     :param: regression: True = regression problem (last layer will be linear)
                         False = classification problem (last layer will be sigmoid)
+    :param: rng: numpy random state to draw the weights from (None = the global one)
 
     :return: parameters: dictionary containing the neural net parameters:
 
@@ -44,13 +45,16 @@ def initialize_parameters(layer_dims=None):
     if not layer_dims:
         raise Exception("Neural net does have any layers")
 
+    if rng is None:
+        rng = np.random
+
     # Network topology
     number_layers = len(layer_dims) - 1  # input layer doesn't count
 
     # Parameters
     parameters = {}
     for l in range(1, number_layers + 1):
-        parameters["W" + str(l)] = np.random.randn(
+        parameters["W" + str(l)] = rng.randn(
             layer_dims[l], layer_dims[l - 1]
         ) * np.sqrt(1.0 / layer_dims[l - 1])
         parameters["b" + str(l)] = np.zeros((layer_dims[l], 1))
@@ -120,9 +124,10 @@ class Model(object):
             setattr(self, name, value)
 
     @classmethod
-    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12):
+    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12, seed=None):
         layer_dims = [n_x] + [wide] * deep + [n_y]
-        parameters = initialize_parameters(layer_dims)
+        rng = None if seed is None else np.random.RandomState(seed)
+        parameters = initialize_parameters(layer_dims, rng)
         activations = [Tanh()] * deep + [Linear()]
         attributes = {
             "_parameters": parameters,
-- 
2.43.0


From e289d8300cadd5fa9057231d347728a16d8a47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 05/43] fix: the hyperparameter search forgets earlier failures
 and never returns without a model

---
 smt/surrogate_models/krg_based.py | 106 ++++++++++++++----------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 149644a..ca1df49 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -892,6 +892,7 @@ class KrgBased(SurrogateModel):
                 return res
 
         limit, _rhobeg = 10 * len(self.options["theta0"]), 0.5
+        nb_ill_matrix = self.nb_ill_matrix
         exit_function = False
         if "KPLSK" in self.name:
             n_iter = 1
@@ -959,44 +960,44 @@ class KrgBased(SurrogateModel):
             self.D = self._componentwise_distance(D, opt=ii)
 
             # Initialization
-            k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
-            while k < stop:
-                # Use specified starting point as first guess
-                self.noise0 = np.array(self.options["noise0"])
-                noise_bounds = self.options["noise_bounds"]
-                if self.options["eval_noise"] and not self.options["use_het_noise"]:
-                    self.noise0[self.noise0 == 0.0] = noise_bounds[0]
-                    for i in range(len(self.noise0)):
-                        if (
-                            self.noise0[i] < noise_bounds[0]
-                            or self.noise0[i] > noise_bounds[1]
-                        ):
-                            self.noise0[i] = noise_bounds[0]
-                            print(
-                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                            )
-
-                    theta0 = np.concatenate(
-                        [theta0, np.log10(np.array([self.noise0]).flatten())]
+            k, stop, best_optimal_rlf_value, max_retry = 0, 1, -1e20, 10
+            # Use specified starting point as first guess
+            self.noise0 = np.array(self.options["noise0"])
+            noise_bounds = self.options["noise_bounds"]
+            if self.options["eval_noise"] and not self.options["use_het_noise"]:
+                self.noise0[self.noise0 == 0.0] = noise_bounds[0]
+                for i in range(len(self.noise0)):
+                    if (
+                        self.noise0[i] < noise_bounds[0]
+                        or self.noise0[i] > noise_bounds[1]
+                    ):
+                        self.noise0[i] = noise_bounds[0]
+                        print(
+                            "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                        )
+
+                theta0 = np.concatenate(
+                    [theta0, np.log10(np.array([self.noise0]).flatten())]
+                )
+                theta0_rand = np.concatenate(
+                    [
+                        theta0_rand,
+                        np.log10(np.array([self.noise0]).flatten()),
+                    ]
+                )
+
+                for i in range(len(self.noise0)):
+                    noise_bounds = np.log10(noise_bounds)
+                    constraints.append(
+                        lambda log10t: log10t[i + len(self.theta0)]
+                        - noise_bounds[0]
                     )
-                    theta0_rand = np.concatenate(
-                        [
-                            theta0_rand,
-                            np.log10(np.array([self.noise0]).flatten()),
-                        ]
+                    constraints.append(
+                        lambda log10t: noise_bounds[1]
+                        - log10t[i + len(self.theta0)]
                     )
-
-                    for i in range(len(self.noise0)):
-                        noise_bounds = np.log10(noise_bounds)
-                        constraints.append(
-                            lambda log10t: log10t[i + len(self.theta0)]
-                            - noise_bounds[0]
-                        )
-                        constraints.append(
-                            lambda log10t: noise_bounds[1]
-                            - log10t[i + len(self.theta0)]
-                        )
-                        bounds_hyp.append(noise_bounds)
+                    bounds_hyp.append(noise_bounds)
+            while k < stop:
                 try:
 
                     if self.options["hyper_opt"] == "Cobyla":
@@ -1048,30 +1049,15 @@ class KrgBased(SurrogateModel):
                     if k > 0:
                         if np.isinf(optimal_rlf_value):
                             stop += 1
-                            if incr != 0:
-                                return
                             if stop > max_retry:
                                 raise ValueError(
                                     "%d attempts to train the model failed" % max_retry
                                 )
                         else:
-                            if optimal_rlf_value >= self.best_iteration_fail:
-                                if optimal_rlf_value > best_optimal_rlf_value:
-                                    best_optimal_rlf_value = optimal_rlf_value
-                                    best_optimal_par = optimal_par
-                                    best_optimal_theta = optimal_theta
-                                else:
-                                    if (
-                                        self.best_iteration_fail
-                                        > best_optimal_rlf_value
-                                    ):
-                                        best_optimal_theta = self._thetaMemory
-                                        (
-                                            best_optimal_rlf_value,
-                                            best_optimal_par,
-                                        ) = self._reduced_likelihood_function(
-                                            theta=best_optimal_theta
-                                        )
+                            if optimal_rlf_value > best_optimal_rlf_value:
+                                best_optimal_rlf_value = optimal_rlf_value
+                                best_optimal_par = optimal_par
+                                best_optimal_theta = optimal_theta
                     else:
                         if np.isinf(optimal_rlf_value):
                             stop += 1
@@ -1083,8 +1069,8 @@ class KrgBased(SurrogateModel):
                 except ValueError as ve:
                     # raise ve
                     # If iteration is max when fmin_cobyla fail is not reached
-                    if self.nb_ill_matrix > 0:
-                        self.nb_ill_matrix -= 1
+                    if nb_ill_matrix > 0:
+                        nb_ill_matrix -= 1
                         k += 1
                         stop += 1
                         # One evaluation objectif function is done at least
@@ -1106,6 +1092,12 @@ class KrgBased(SurrogateModel):
                         k = stop + 1
                         print("fmin_cobyla failed but the best value is retained")
 
+            if len(best_optimal_par) == 0:
+                raise ValueError(
+                    "The optimization of the hyperparameters failed. "
+                    "Try increasing the ``nugget``"
+                )
+
             if "KPLSK" in self.name:
                 if self.options["eval_noise"]:
                     # best_optimal_theta contains [theta, noise] if eval_noise = True
-- 
2.43.0


From 55388f89f88a40b244d3239b41be8b8fe7338249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 06/43] fix: training MFK with optim_var keeps the user's
 training data

---
 smt/applications/mfk.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..4a73625 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -8,6 +8,7 @@ order 1 (AR1)
 Adapted on January 2021 by Andres Lopez-Lopera to the new SMT version
 """
 
+from collections import defaultdict
 from copy import deepcopy
 
 import numpy as np
@@ -339,15 +340,21 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
-            for lvl in range(self.nlvl - 1):
-                self.set_training_values(
-                    X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
-                )
-            self.set_training_values(
-                X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
-            )
-            self.options["eval_noise"] = False
-            self._new_train()
+            y = [
+                self._predict_intermediate_values(X[lvl], lvl + 1)
+                for lvl in range(self.nlvl)
+            ]
+            # Train again on the smoothed outputs, leaving the user's training data alone
+            training_points = self.training_points
+            self.training_points = defaultdict(dict)
+            try:
+                for lvl in range(self.nlvl - 1):
+                    self.set_training_values(X[lvl], y[lvl], name=lvl)
+                self.set_training_values(X[-1], y[-1])
+                self.options["eval_noise"] = False
+                self._new_train()
+            finally:
+                self.training_points = training_points
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From 4324406689d935ea85105ea3ff2cf984ca0eb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/43] fix: cache files are checked when read, written
 atomically, and only touched with a cache directory

---
 smt/utils/caching.py | 111 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 29 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..9284236 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -4,12 +4,11 @@ Author: Dr. John T. Hwang <hwangjt@umich.edu>
 This package is distributed under New BSD license.
 """
 
-try:
-    import cPickle as pickle
-except:
-    import pickle
-import hashlib
 import contextlib
+import hashlib
+import os
+import pickle
+import uuid
 
 
 @contextlib.contextmanager
@@ -31,21 +30,79 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     outputs_dict : dict
         Dictionary containing the outputs of the operation.
     """
-    checksum = _caching_checksum(inputs_dict)
-    filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
-    try:
-        with open(filename, "rb") as f:
-            outputs_dict = pickle.load(f)
-        load_successful = True
-    except:
+    filename = None
+    outputs_dict = None
+    if data_dir:
+        checksum = _caching_checksum(inputs_dict)
+        filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
+        outputs_dict = _load(filename, checksum)
+
+    load_successful = outputs_dict is not None
+    if not load_successful:
         outputs_dict = {}
-        load_successful = False
 
     yield outputs_dict
 
-    if not load_successful and data_dir:
-        with open(filename, "wb") as f:
-            pickle.dump(outputs_dict, f)
+    if filename is not None and not load_successful:
+        _save(filename, checksum, outputs_dict)
+
+
+def _digest(checksum, payload):
+    return hashlib.md5(checksum.encode() + payload).hexdigest().encode()
+
+
+def _load(filename, checksum):
+    """
+    Load the outputs stored in the given file.
+
+    Arguments
+    ---------
+    filename : str
+        Path of the file.
+    checksum : str
+        Checksum of the inputs the outputs belong to.
+
+    Returns
+    -------
+    dict or None
+        Stored outputs; None if the file is missing, unreadable, incomplete or damaged.
+    """
+    try:
+        with open(filename, "rb") as f:
+            digest, payload = f.read().split(b"\n", 1)
+        if digest != _digest(checksum, payload):
+            return None
+        return pickle.loads(payload)
+    except Exception:
+        return None
+
+
+def _save(filename, checksum, outputs_dict):
+    """
+    Store the outputs in the given file, which never shows up incomplete under that name.
+
+    Arguments
+    ---------
+    filename : str
+        Path of the file.
+    checksum : str
+        Checksum of the inputs the outputs belong to.
+    outputs_dict : dict
+        Outputs to store.
+    """
+    payload = pickle.dumps(outputs_dict)
+    tmp_filename = "%s.%s.tmp" % (filename, uuid.uuid4().hex)
+    try:
+        with open(tmp_filename, "wb") as f:
+            f.write(_digest(checksum, payload) + b"\n")
+            f.write(payload)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
+        raise
 
 
 def _caching_checksum(obj):
@@ -62,18 +119,14 @@ def _caching_checksum(obj):
     str
         Hexadecimal string checksum that was computed.
     """
+    owner = obj.get("self", None)
+    printer = getattr(owner, "printer", None)
+    if printer is not None:
+        owner.printer = None
     try:
-        tmp = obj["self"].printer
-        obj["self"].printer = None
-    except:
-        pass
-
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
-
-    try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+    finally:
+        if printer is not None:
+            owner.printer = printer
 
-    return checksum
+    return hashlib.md5(self_pkl).hexdigest()
-- 
2.43.0


From a34565efd324c5fe484ccbcba3577ac7b6218523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 08/43] fix: cached RBF and RMTS trainings answer output
 derivatives; the energy terms' cache key includes the bounds

---
 smt/surrogate_models/rbf.py  |  2 ++
 smt/surrogate_models/rmts.py | 21 ++++++++-------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..e7124e9 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -141,9 +141,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..eae1f1b 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -182,6 +182,7 @@ class RMTS(SurrogateModel):
 
         inputs = {}
         inputs["nx"] = xlimits.shape[0]
+        inputs["xlimits"] = xlimits
         inputs["elem_list"] = num["elem_list"]
         if self.__class__.__name__ == "RMTB":
             inputs["num_ctrl_list"] = num["ctrl_list"]
@@ -348,8 +349,6 @@ class RMTS(SurrogateModel):
                         % (iter_count, ind_y, norm, fval)
                     )
 
-                    self.mtx = mtx
-
                     iter_count += 1
 
     def _solve(self):
@@ -435,7 +434,6 @@ class RMTS(SurrogateModel):
             if outputs:
                 self.sol_coeff = outputs["sol_coeff"]
                 self.sol = outputs["sol"]
-                self.mtx = outputs["mtx"]
                 self.full_dof2coeff = outputs["full_dof2coeff"]
                 self.full_hess = outputs["full_hess"]
                 self.full_jac_dict = outputs["full_jac_dict"]
@@ -443,7 +441,6 @@ class RMTS(SurrogateModel):
                 self._new_train()
                 outputs["sol_coeff"] = self.sol_coeff
                 outputs["sol"] = self.sol
-                outputs["mtx"] = self.mtx
                 outputs["full_dof2coeff"] = self.full_dof2coeff
                 outputs["full_hess"] = self.full_hess
                 outputs["full_jac_dict"] = self.full_jac_dict
@@ -543,7 +540,7 @@ class RMTS(SurrogateModel):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
         n = x.shape[0]
-        nw = self.mtx.shape[0]
+        nw = self.sol.shape[0]
         nx = x.shape[1]
         ny = self.sol.shape[1]
 
@@ -554,25 +551,23 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
-
         dy_dyt = {}
         for kx in self.training_points[None]:
             nt = self.training_points[None][kx][0].shape[0]
 
-            dR_dyt = np.zeros((nw, nt, ny))
+            dw_dyt = np.zeros((nw, nt, ny))
             for ind_y in range(ny):
                 yt_dict = self._get_yt_dict(ind_y)
+                dR_dyt = np.zeros((nw, nt, ny))
                 dR_dyt[:, :, ind_y] = self._opt_dgrad_dyt(
                     self.sol[:, ind_y], p, yt_dict, kx
                 )
+                dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
+                solver = get_solver(self.options["derivative_solver"])
+                solver._setup(dR_dw, self.printer)
 
-            dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
+                for ind_t in range(nt):
                     solver._solve(
                         dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
-- 
2.43.0


From e17f0e548c72a22b7ba7b65d9a639545f469df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 09/43] fix: printing depth and solver printing switches are
 restored when the enclosed work fails

---
 smt/utils/linear_solvers.py | 6 ++++--
 smt/utils/printer.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..6c25d38 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -125,8 +125,10 @@ class LinearSolver(object):
         orig_active = self.printer.active
 
         self.printer.active = self.printer.active and active
-        yield self.printer
-        self.printer.active = orig_active
+        try:
+            yield self.printer
+        finally:
+            self.printer.active = orig_active
 
 
 class NullSolver(LinearSolver):
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From ac44935bce6f160fc9f4f2558e1f7f6e1d423b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 10/43] fix: experts and bridges are chosen, weighted and
 configured as stated whatever was built before (MOE, VFM)

---
 smt/applications/moe.py | 15 +++++++++-----
 smt/applications/vfm.py | 45 +++++++++++++++++++----------------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..602daf7 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -190,8 +190,8 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        self.xt = np.array(xt)
+        self.yt = np.array(yt)
 
     def train(self):
         """
@@ -206,7 +206,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
@@ -551,7 +551,7 @@ class MOE(SurrogateBasedApplication):
             sm.train()
 
             expected = test_values[:, dim]
-            actual = sm.predict_values(test_values[:, 0:dim])
+            actual = sm.predict_values(test_values[:, 0:dim])[:, 0]
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
             # mse = (l_two**2) / len(expected)
@@ -709,6 +709,11 @@ class MOE(SurrogateBasedApplication):
 
         if rad > 0:
             probs = probs / rad
+        else:
+            # every density underflows: the sample belongs to the most likely cluster
+            logs = [distribs[k].logpdf(x) for k in range(len(weights))]
+            probs = np.zeros(len(weights))
+            probs[np.argmax(logs)] = 1.0
         return probs
 
     def _proba_cluster(self, x, distribs=None):
diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..8e78c02 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -155,12 +155,13 @@ class VFM(SurrogateBasedApplication):
             dy_HF = self.options["dy_HF"]
 
         # Check parameters
-        self._check_param()
+        name_model_LF, name_model_bridge = self._check_param()
+        options_LF = dict(self.options["options_LF"])
+        options_bridge = dict(self.options["options_bridge"])
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        sm_LF = name_model_LF(**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +173,7 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
+            self.B_deriv = options_bridge.pop("deriv", False)
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +189,7 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
+            self.B_deriv = options_bridge.pop("deriv", False)
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +201,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = name_model_bridge(**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -243,13 +242,16 @@ class VFM(SurrogateBasedApplication):
 
         """
         This function check some parameters of the model.
+
+        Returns
+        -------
+        The surrogate classes of the low-fidelity model and of the bridge.
         """
         # Check surrogates
-        if not callable(self.options["name_model_LF"]):
-            if self.options["name_model_LF"] in self._surrogate_type:
-                self.options["name_model_LF"] = self._surrogate_type[
-                    self.options["name_model_LF"]
-                ]
+        name_model_LF = self.options["name_model_LF"]
+        if not callable(name_model_LF):
+            if name_model_LF in self._surrogate_type:
+                name_model_LF = self._surrogate_type[name_model_LF]
             else:
                 raise ValueError(
                     "The LF surrogate should be one of %s, "
@@ -257,11 +259,10 @@ class VFM(SurrogateBasedApplication):
                     % (self._surrogate_type.keys(), self.options["name_model_LF"])
                 )
 
-        if not callable(self.options["name_model_bridge"]):
-            if self.options["name_model_bridge"] in self._surrogate_type:
-                self.options["name_model_bridge"] = self._surrogate_type[
-                    self.options["name_model_bridge"]
-                ]
+        name_model_bridge = self.options["name_model_bridge"]
+        if not callable(name_model_bridge):
+            if name_model_bridge in self._surrogate_type:
+                name_model_bridge = self._surrogate_type[name_model_bridge]
             else:
                 raise ValueError(
                     "The bridge surrogate should be one of %s, "
@@ -269,8 +270,4 @@ class VFM(SurrogateBasedApplication):
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
 
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
+        return name_model_LF, name_model_bridge
-- 
2.43.0


From c9035d273c0f4ee4f07c901b8be60528b2c6e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 11/43] fix: MFK with one level, a linear trend or variances
 near zero; QP derivatives with several outputs

---
 smt/applications/mfk.py    | 7 ++++++-
 smt/surrogate_models/qp.py | 9 ++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4a73625..89b2de8 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -561,6 +561,8 @@ class MFK(KrgBased):
 
         # scaled predictor
         MSE *= self.y_std ** 2
+        # as in KrgBased: rounding must not make a variance negative
+        MSE[MSE < 0.0] = 0.0
 
         return MSE, sigma2_rhos
 
@@ -597,7 +599,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, kx + 1] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
@@ -714,6 +716,9 @@ class MFK(KrgBased):
                     "the length of noise0 (%s) should be equal to the number of levels of fidelity (%s)."
                     % (len(self.options["noise0"]), self.nlvl)
                 )
+        self.options["noise0"] = [
+            np.atleast_1d(noise).tolist() for noise in self.options["noise0"]
+        ]
 
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..027ae66 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * np.outer(x[:, kx], self.coef[1 + dim + kx, :])
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From e12825edcfd1dacaff1cbbc79935ffda46175dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 12/43] fix: GENN's goodness of fit leaves the training data
 alone, mismatched derivative points are refused

---
 smt/surrogate_models/genn.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ab59893..7f4b919 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -9,6 +9,7 @@ This package is distributed under New BSD license.
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.utils.neural_net.model import Model
 
+from collections import defaultdict
 import numpy as np
 
 
@@ -99,7 +100,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
@@ -241,18 +242,22 @@ class GENN(SurrogateModel):
         """
         # Store current training points
         training_points = self.training_points
-
-        # Replace training points with test (validation) points
-        load_smt_data(self, xv, yv, dyv_dxv)
-
-        # Convert from SMT format to a more convenient format for GENN
-        X, Y, J = smt_to_genn(self.training_points)
-
-        # Generate goodness of fit plots
-        self.model.goodness_of_fit(X, Y)
-
-        # Restore training points
-        self.training_points = training_points
+        sizes = self.nt, self.nx, self.ny
+        self.training_points = defaultdict(dict)
+
+        try:
+            # Replace training points with test (validation) points
+            load_smt_data(self, xv, yv, dyv_dxv)
+
+            # Convert from SMT format to a more convenient format for GENN
+            X, Y, J = smt_to_genn(self.training_points)
+
+            # Generate goodness of fit plots
+            self.model.goodness_of_fit(X, Y)
+        finally:
+            # Restore training points
+            self.training_points = training_points
+            self.nt, self.nx, self.ny = sizes
 
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
-- 
2.43.0


From 903077935e50486f999ec5658cfa8a719a423f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 13/43] fix: ESE sampling of two-dimensional or single points,
 full-factorial weights left unchanged

---
 smt/sampling_methods/full_factorial.py | 2 +-
 smt/sampling_methods/lhs.py            | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..bb6954f 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -308,10 +308,9 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
+        if nt < 2:
+            # there are no two points to exchange
+            return P0
 
         P, historic = self._maximinESE(
             P0,
-- 
2.43.0


From 6412f401f248d997a88abb3c3b32d3f882da2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 14/43] fix: VFM counts as trained only once its model exists

---
 smt/applications/vfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 8e78c02..709967a 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -235,8 +235,8 @@ class VFM(SurrogateBasedApplication):
                         + sm_LF.predict_derivatives(x, i)
                     )
 
-        self._trained = True
         self.sm_HF = sm_HF
+        self._trained = True
 
     def _check_param(self):
 
-- 
2.43.0


From b14417c880f360066c815d2a3b97e528e9d09875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 15/43] fix: GENN derivatives for several inputs, outputs and
 points use each variable's own scale

---
 smt/utils/neural_net/model.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 9507ddf..7a3e1ba 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -102,7 +102,7 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = self._scale_jacobian(self._J_norm)
         return X, Y, J
 
     def __init__(self, **kwargs):
@@ -432,19 +432,31 @@ class Model(object):
         number_of_examples = X.shape[1]
 
         mu_x, sigma_x = self._scale_factors["x"]
-        mu_y, sigma_y = self._scale_factors["y"]
 
         X_norm = (X - mu_x) / sigma_x
 
-        Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
-            self.number_of_outputs, self.number_of_inputs, number_of_examples
+        J = self._scale_jacobian(
+            J_norm.reshape(
+                self.number_of_outputs, self.number_of_inputs, number_of_examples
+            )
         )
 
         return J
 
+    def _scale_jacobian(self, J_norm):
+        """
+        Convert a Jacobian of the normalized data back to the original units.
+
+        :param J_norm: np array of shape (n_y, n_x, m)
+        :return: J: np array of shape (n_y, n_x, m)
+        """
+        sigma_x = np.reshape(self._scale_factors["x"][1], (1, -1, 1))
+        sigma_y = np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
+
+        return J_norm * sigma_y / sigma_x
+
     def goodness_of_fit(self, X_test, Y_test, J_test=None, response=0, partial=0):
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From fc67607b54f4343effd498c9290cbd25c4483081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 16/43] fix: derivatives with respect to a variable that does
 not exist are refused, the caller's points are copied

---
 smt/surrogate_models/surrogate_model.py | 8 ++++++--
 smt/utils/checks.py                     | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index ec45102..623a8c7 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -12,7 +12,7 @@ from abc import ABCMeta, abstractmethod
 
 from smt.utils.printer import Printer
 from smt.utils.options_dictionary import OptionsDictionary
-from smt.utils.checks import check_support, check_nx, ensure_2d_array
+from smt.utils.checks import check_support, check_nx, check_kx, ensure_2d_array
 
 
 class SurrogateModel(object, metaclass=ABCMeta):
@@ -198,6 +198,8 @@ class SurrogateModel(object, metaclass=ABCMeta):
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
 
+        check_kx(xt.shape[1], kx)
+
         self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
 
     def update_training_derivatives(
@@ -335,7 +337,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        check_kx(self.nx, kx)
         n = x.shape[0]
+        x2 = np.copy(x)
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
         )
@@ -350,7 +354,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         # Evaluate the unknown points using the specified model-method
         with self.printer._timed_context("Predicting", key="prediction"):
-            y = self._predict_derivatives(x, kx)
+            y = self._predict_derivatives(x2, kx)
 
         time_pt = self.printer._time("prediction")[-1] / n
         self.printer()
diff --git a/smt/utils/checks.py b/smt/utils/checks.py
index 509ed1e..279450f 100644
--- a/smt/utils/checks.py
+++ b/smt/utils/checks.py
@@ -33,3 +33,8 @@ def check_nx(nx, x):
             raise ValueError(
                 "x should have shape [:, {}] and not {}".format(nx, x.shape)
             )
+
+
+def check_kx(nx, kx):
+    if not 0 <= kx < nx:
+        raise ValueError("kx should be in [0, {}) and not {}".format(nx, kx))
-- 
2.43.0


From 5cf3ae9b43bf1d1b6dbf0d52695096c9c2775490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 17/43] fix: options keep their own copy of lists, dictionaries
 and arrays

---
 smt/utils/options_dictionary.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index e9c7c9f..613ffc6 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -34,15 +34,19 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = {
-            name: deepcopy(value)
-            if isinstance(value, (list, dict, np.ndarray))
-            else value
-            for name, value in self._dict.items()
-        }
+        clone._dict = {name: self._own(value) for name, value in self._dict.items()}
         clone._declared_entries = dict(self._declared_entries)
         return clone
 
+    @staticmethod
+    def _own(value):
+        """
+        Return a copy of a container, which nobody else can modify, or the value itself.
+        """
+        if isinstance(value, (list, dict, np.ndarray)):
+            return deepcopy(value)
+        return value
+
     def __getitem__(self, name):
         """
         Get an option that was previously declared and optionally set.
@@ -63,6 +67,8 @@ class OptionsDictionary(object):
         """
         Set an option that was previously declared.
 
+        Lists, dictionaries and arrays are copied.
+
         The value argument must be valid, which means it must satisfy the following:
         1. If values and not types was given when declaring, value must be in values.
         2. If types and not values was given when declaring, type(value) must be in types.
@@ -77,7 +83,7 @@ class OptionsDictionary(object):
         """
         assert name in self._declared_entries, "Option %s has not been declared" % name
         self._assert_valid(name, value)
-        self._dict[name] = value
+        self._dict[name] = self._own(value)
 
     def __contains__(self, key):
         return key in self._dict
-- 
2.43.0


From 63da21c301ddcb15609e72e0848869ff368b039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 18/43] fix: NestedLHS keeps its own copy of the bounds

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 89b2de8..7c033d6 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -49,7 +49,7 @@ class NestedLHS(object):
 
         """
         self.nlevel = nlevel
-        self.xlimits = xlimits
+        self.xlimits = np.array(xlimits)
 
     def __call__(self, nb_samples_hifi):
         """
-- 
2.43.0


From 01fe5bad8d2c73f0e5a5f5f593d744d710781a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 19/43] fix: an update of options with an invalid entry sets
 none of them

---
 smt/utils/options_dictionary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 613ffc6..d07afa2 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -81,7 +81,6 @@ class OptionsDictionary(object):
         value : object
             The value to set.
         """
-        assert name in self._declared_entries, "Option %s has not been declared" % name
         self._assert_valid(name, value)
         self._dict[name] = self._own(value)
 
@@ -92,6 +91,7 @@ class OptionsDictionary(object):
         return key in self._declared_entries
 
     def _assert_valid(self, name, value):
+        assert name in self._declared_entries, "Option %s has not been declared" % name
         values = self._declared_entries[name]["values"]
         types = self._declared_entries[name]["types"]
 
@@ -124,7 +124,10 @@ class OptionsDictionary(object):
         ---------
         dict_ : dict
             The given dictionary. All keys must have been declared.
+            If one of the entries is not valid, none is set.
         """
+        for name in dict_:
+            self._assert_valid(name, dict_[name])
         for name in dict_:
             self[name] = dict_[name]
 
-- 
2.43.0


From 6e1dc8b7a996781a72f8124f7065ea0dc742edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 20/43] fix: kriging variances with a linear or quadratic trend
 solve the lower triangular system

---
 smt/surrogate_models/krg_based.py | 1 +
 smt/surrogate_models/krg_mgp.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index ca1df49..5452838 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -754,6 +754,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..731b964 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -349,7 +349,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From 76f355a5be1c405bad100e60d0926f2beb636af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 21/43] fix: IDW answers from the data it was trained with, not
 from newer data of another size

---
 smt/surrogate_models/idw.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/smt/surrogate_models/idw.py b/smt/surrogate_models/idw.py
index 9dce6b8..986d838 100644
--- a/smt/surrogate_models/idw.py
+++ b/smt/surrogate_models/idw.py
@@ -66,10 +66,12 @@ class IDW(SurrogateModel):
 
         tmp = self.idwc
         self.idwc = None
+        self.yt = None
 
         inputs = {"self": self}
         with cached_operation(inputs, self.options["data_dir"]) as outputs:
-            self.idwc = tmp
+            # both answer for the data of this training until the next one
+            self.idwc, self.yt = tmp, self.training_points[None][0][1]
 
             if outputs:
                 self.sol = outputs["sol"]
@@ -82,9 +84,8 @@ class IDW(SurrogateModel):
         This function is used by _predict function. See _predict for more details.
         """
         n = x.shape[0]
-        nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
+        nt = yt.shape[0]
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
@@ -110,9 +111,8 @@ class IDW(SurrogateModel):
             Derivative values.
         """
         n = x.shape[0]
-        nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
+        nt = yt.shape[0]
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac_derivs(n, kx, x.flatten(), jac)
@@ -123,8 +123,7 @@ class IDW(SurrogateModel):
 
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        nt, ny = self.yt.shape
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
-- 
2.43.0


From 58280245b8100b775a7052b5e66520f0356591c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 22/43] fix: a mixed-integer surrogate keeps the options of its
 surrogate and the name of the training set

---
 smt/applications/mixed_integer.py       |  4 ++--
 smt/surrogate_models/surrogate_model.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..c0270b7 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -288,7 +288,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
-        super().set_training_values(xt2, yt)
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
@@ -296,7 +296,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._surrogate.update_training_values(yt, name)
 
     def _train(self):
-        self._surrogate._train()
+        self._surrogate._train_on_options_copy()
 
     def predict_values(self, x):
         xp = ensure_2d_array(x, "xp")
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 623a8c7..f4997a9 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -269,13 +269,19 @@ class SurrogateModel(object, metaclass=ABCMeta):
         else:
             self.printer._title("Training")
 
-        # Train the model using the specified model-method; the training may adapt
-        # the options to the training data, which must not alter the user's options
+        # Train the model using the specified model-method
+        with self.printer._timed_context("Training", "training"):
+            self._train_on_options_copy()
+
+    def _train_on_options_copy(self) -> None:
+        """
+        Train the model with a copy of the options: the training may adapt
+        them to the training data, which must not alter the user's options
+        """
         options = self.options
         self.options = options.clone()
         try:
-            with self.printer._timed_context("Training", "training"):
-                self._train()
+            self._train()
         finally:
             self.options = options
 
-- 
2.43.0


From c89016d3f8b494506e5bb04a26c40c895b2019b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 23/43] fix: a categorical variable takes exactly one level
 when several tie

---
 smt/applications/mixed_integer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index c0270b7..e77dbde 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -127,10 +127,10 @@ def cast_to_discrete_values(xtypes, x):
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             # Categorial : The biggest level is selected.
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            # (the first one if several are equal)
+            level = np.argmax(xenum, axis=1)
+            xenum[:] = 0
+            xenum[np.arange(len(level)), level] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From 21de323930760cee7d6bd4393e3aeaf6351940a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 24/43] fix: EGO evaluates and records exactly the new,
 feasible points of each iteration

---
 smt/applications/ego.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..e43e1a8 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -150,6 +150,7 @@ class EGO(SurrogateBasedApplication):
         for k in range(n_iter):
 
             # Virtual enrichement loop
+            n_new = 0
             for p in range(n_parallel):
                 # find next best x-coord point to evaluate
                 x_et_k, success = self._find_best_point(
@@ -172,13 +173,17 @@ class EGO(SurrogateBasedApplication):
                 # Update y_data with predicted value
                 y_data = np.atleast_2d(np.append(y_data, y_et_k)).T
                 x_data = np.atleast_2d(np.append(x_data, x_et_k, axis=0))
+                n_new += 1
+
+            if n_new == 0:
+                continue
 
             # Compute the real values of y_data
-            x_to_compute = np.atleast_2d(x_data[-n_parallel:])
+            x_to_compute = np.copy(x_data[-n_new:])
             if self.mixint:
                 x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
             y = self._evaluator.run(fun, x_to_compute)
-            y_data[-n_parallel:] = y
+            y_data[-n_new:] = np.reshape(y, (n_new, 1))
 
         # Find the optimal point
         ind_best = np.argmin(y_data)
@@ -288,7 +293,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = np.copy(x_doe)
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
@@ -365,12 +373,14 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
         opt = opt_success[ind_min]
         x_et_k = np.atleast_2d(opt["x"])
+        if self.mixint:
+            x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
 
         return x_et_k, True
 
-- 
2.43.0


From 6a65263e6bd74cf0315aa69bf8882e32cc8623d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 25/43] fix: GENN trains with a mini-batch of a single example

---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
-- 
2.43.0


From cfaccd35411fffc427d4ed43a501f6071943ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 26/43] fix: output derivatives report only when printing is on

---
 smt/surrogate_models/surrogate_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index f4997a9..75fea3d 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -387,6 +387,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "output_derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
 
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
-- 
2.43.0


From 38f7ebd0a64700128a5b2c427216c41845f17b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 27/43] fix: the best hyperparameters kept from a failed
 optimizer run have the shape of a parameter vector

---
 smt/surrogate_models/krg_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 5452838..6a019a7 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -322,13 +322,13 @@ class KrgBased(SurrogateModel):
 
             if reduced_likelihood_function_value > self.best_iteration_fail:
                 self.best_iteration_fail = reduced_likelihood_function_value
-                self._thetaMemory = np.array(tmp_var)
+                self._thetaMemory = np.array(tmp_var).ravel()
 
         elif (self.best_iteration_fail is None) and (
             not np.isinf(reduced_likelihood_function_value)
         ):
             self.best_iteration_fail = reduced_likelihood_function_value
-            self._thetaMemory = np.array(tmp_var)
+            self._thetaMemory = np.array(tmp_var).ravel()
         return reduced_likelihood_function_value, par
 
     def _reduced_likelihood_gradient(self, theta):
-- 
2.43.0


From 5b04c5683fb0c7886b4ee55d7654fef5262c291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 28/43] fix: the quadratic line search stays within its bracket

---
 smt/utils/line_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index e19a411..4d88a3e 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -235,8 +235,8 @@ class QuadraticLineSearch(BracketedLineSearch):
         d1 = 2 * c2
 
         a = -d0 / d1 if d1 != 0.0 else np.nan
-        if not np.isfinite(a):
-            # The quadratic has no minimum: fall back on the midpoint.
+        if not (a1 <= a <= a2 or a2 <= a <= a1):
+            # The quadratic has no minimum in the interval: fall back on the midpoint.
             a = 0.5 * a1 + 0.5 * a2
         p = self._phi(a)
         dp = self._dphi(a)
-- 
2.43.0


From 9cf003421d677ca49451b14cc0ccd4b46ba93a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 29/43] fix: the dense Cholesky solver returns the solution
 whatever the layout of the result array

---
 smt/utils/linear_solvers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 6c25d38..e3ce330 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -156,11 +156,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
-- 
2.43.0


From 4ea63f2cd7c7f53a49e09f09147f538faf2c75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 30/43] fix: the dense LU solver accepts the sparse systems of
 the regularized splines

---
 smt/utils/linear_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index e3ce330..2e52cd8 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -166,6 +166,8 @@ class DenseLUSolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
+            if scipy.sparse.issparse(mtx):
+                mtx = mtx.toarray()
             self.mtx = mtx
             assert isinstance(mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
-- 
2.43.0


From 198eff3ddced7ea8b891d4c542d6acf2daa54e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 31/43] fix: the smoothers of a multigrid solver have the
 options of the chosen one

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 2e52cd8..076e3c4 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
-- 
2.43.0


From ae5da8e7dfdff9b23b0531d727a9db9ac0c42f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 32/43] fix: a multigrid solve does not start from the previous
 solution

---
 smt/utils/linear_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 076e3c4..f6b113d 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -514,6 +514,8 @@ class MultigridSolver(LinearSolver):
             self.callback.rhs = rhs
 
             self.mg_rhs[0][:] = rhs
+            for mg_sol in self.mg_sol:
+                mg_sol[:] = 0.0
 
             for ind_level in range(len(self.mg_ops)):
                 self._restrict(ind_level)
-- 
2.43.0


From 4ec3e9dd122623ea8999f3557b7a7137d901a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 33/43] fix: a Krylov solver returns the best solution of its
 iteration

---
 smt/utils/linear_solvers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index f6b113d..269d236 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -66,6 +66,8 @@ class Callback(object):
         self.mtx = None
         self.rhs = None
         self.norm0 = 1.0
+        self.best_sol = None
+        self.best_norm = np.inf
 
     def _print_norm(self, norm):
         if self.counter == 0:
@@ -92,6 +94,9 @@ class Callback(object):
     def _print_sol(self, sol):
         res = self.mtx.dot(sol) - self.rhs
         norm = np.linalg.norm(res)
+        if norm < self.best_norm:
+            self.best_sol = np.array(sol)
+            self.best_norm = norm
         self._print_norm(norm)
 
 
@@ -298,6 +303,8 @@ class KrylovSolver(LinearSolver):
                 self.callback.ind_y = ind_y
                 self.callback.mtx = self.mtx
                 self.callback.rhs = rhs
+                self.callback.best_sol = None
+                self.callback.best_norm = np.inf
 
                 self.callback._print_sol(sol)
                 tmp, info = self.solver(
@@ -309,6 +316,13 @@ class KrylovSolver(LinearSolver):
                     **self.solver_kwargs
                 )
 
+                # Past the limit of precision the iteration may drift away again.
+                norm = np.linalg.norm(self.mtx.dot(tmp) - rhs)
+                if self.callback.best_sol is not None and not (
+                    norm <= self.callback.best_norm
+                ):
+                    tmp = self.callback.best_sol
+
             sol[:] = tmp
 
         return sol
-- 
2.43.0


From 41ee3c28ed65cf30285d31aa95311bd326a10de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 34/43] fix: an interrupt on entry of the enclosed work
 restores the printing switches too

---
 smt/utils/linear_solvers.py | 2 +-
 smt/utils/printer.py        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 269d236..d949cea 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -129,8 +129,8 @@ class LinearSolver(object):
     def _active(self, active):
         orig_active = self.printer.active
 
-        self.printer.active = self.printer.active and active
         try:
+            self.printer.active = orig_active and active
             yield self.printer
         finally:
             self.printer.active = orig_active
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 30fa354..9ddc76a 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -116,11 +116,12 @@ class Printer(object):
             self(string + " ...")
 
         start_time = time.time()
-        self.depth += 1
+        orig_depth = self.depth
         try:
+            self.depth = orig_depth + 1
             yield
         finally:
-            self.depth -= 1
+            self.depth = orig_depth
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From b912ae14c4adbf39ebdd217767d62105f571741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:00 +0000
Subject: [PATCH 35/43] fix: the GMRES solver keeps the best solution of its
 restarts

---
 smt/utils/linear_solvers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index d949cea..fe9cf7b 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -88,9 +88,6 @@ class Callback(object):
             )
         self.counter += 1
 
-    def _print_res(self, res):
-        self._print_norm(res)
-
     def _print_sol(self, sol):
         res = self.mtx.dot(sol) - self.rhs
         norm = np.linalg.norm(res)
@@ -281,11 +278,14 @@ class KrylovSolver(LinearSolver):
                 }
             elif self.options["solver"] == "gmres":
                 self.solver = scipy.sparse.linalg.gmres
-                self.callback_func = self.callback._print_res
+                self.callback_func = self.callback._print_sol
+                restart = min(self.options["ilimit"], mtx.shape[0])
                 self.solver_kwargs = {
                     "tol": self.options["atol"],
-                    "maxiter": self.options["ilimit"],
-                    "restart": min(self.options["ilimit"], mtx.shape[0]),
+                    # number of restart cycles
+                    "maxiter": -(-self.options["ilimit"] // restart),
+                    "restart": restart,
+                    "callback_type": "x",
                 }
 
     def _solve(self, rhs, sol=None, ind_y=0):
-- 
2.43.0


From e295b9c025affbf603780b0f9f5d394a3ffbb0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 36/43] fix: the end of a silenced block restores the output in
 force before it

---
 smt/utils/silence.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smt/utils/silence.py b/smt/utils/silence.py
index 75a5149..b3706e0 100644
--- a/smt/utils/silence.py
+++ b/smt/utils/silence.py
@@ -9,12 +9,17 @@ import sys
 
 
 class Silence(object):
+    def __init__(self):
+        self.streams = []
+
     def __enter__(self):
-        sys.stdout = open(os.devnull, "w")
+        stream = open(os.devnull, "w")
+        self.streams.append((sys.stdout, stream))
+        sys.stdout = stream
 
     def __exit__(self, *args):
-        sys.stdout.close()
-        sys.stdout = sys.__stdout__
+        sys.stdout, stream = self.streams.pop()
+        stream.close()
         return False
 
 
-- 
2.43.0


From fc46e012d6becab82e575b9418d27d9ac216a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 37/43] fix: the descriptor-level silencer redirects under
 Python 3 and restores the streams in force before it

---
 smt/utils/silence.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/smt/utils/silence.py b/smt/utils/silence.py
index b3706e0..d7a74dc 100644
--- a/smt/utils/silence.py
+++ b/smt/utils/silence.py
@@ -14,8 +14,7 @@ class Silence(object):
 
     def __enter__(self):
         stream = open(os.devnull, "w")
-        self.streams.append((sys.stdout, stream))
-        sys.stdout = stream
+        self.streams, sys.stdout = self.streams + [(sys.stdout, stream)], stream
 
     def __exit__(self, *args):
         sys.stdout, stream = self.streams.pop()
@@ -99,34 +98,41 @@ class Silence2:
     def __enter__(self):
         self.sys = sys
         # save previous stdout/stderr
-        self.saved_streams = saved_streams = sys.__stdout__, sys.__stderr__
-        self.fds = fds = [s.fileno() for s in saved_streams]
-        self.saved_fds = map(os.dup, fds)
-        # flush any pending output
-        for s in saved_streams:
-            s.flush()
+        self.saved_streams = sys.stdout, sys.stderr
+        self.streams = streams = sys.__stdout__, sys.__stderr__
+        self.fds = fds = [s.fileno() for s in streams]
 
         # open surrogate files
         if self.combine:
             null_streams = [open(self.outfiles[0], self.mode, 0)] * 2
-            if self.outfiles[0] != os.devnull:
-                # disable buffering so output is merged immediately
-                sys.stdout, sys.stderr = map(os.fdopen, fds, ["w"] * 2, [0] * 2)
         else:
             null_streams = [open(f, self.mode, 0) for f in self.outfiles]
         self.null_fds = null_fds = [s.fileno() for s in null_streams]
         self.null_streams = null_streams
 
+        # flush any pending output
+        for s in self.saved_streams + streams:
+            s.flush()
+        self.saved_fds = [os.dup(fd) for fd in fds]
+
         # overwrite file objects and low-level file descriptors
-        map(os.dup2, null_fds, fds)
+        try:
+            sys.stdout, sys.stderr = streams
+            for null_fd, fd in zip(null_fds, fds):
+                os.dup2(null_fd, fd)
+        except BaseException:
+            self.__exit__()
+            raise
 
     def __exit__(self, *args):
         sys = self.sys
         # flush any pending output
-        for s in self.saved_streams:
+        for s in self.streams:
             s.flush()
         # restore original streams and file descriptors
-        map(os.dup2, self.saved_fds, self.fds)
+        for saved_fd, fd in zip(self.saved_fds, self.fds):
+            os.dup2(saved_fd, fd)
+            os.close(saved_fd)
         sys.stdout, sys.stderr = self.saved_streams
         # clean up
         for s in self.null_streams:
-- 
2.43.0


From 7dec9cf67c155e9f3d230d33eaa2f292610a89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:26 +0000
Subject: [PATCH 38/43] fix: co-Kriging variances of three and more levels use
 the mean of the level below

---
 smt/applications/mfk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 7c033d6..6d120df 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -529,7 +529,10 @@ class MFK(KrgBased):
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
 
+            gamma = self.optimal_par[i]["gamma"]
+
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
-- 
2.43.0


From 3712cd19000406ed32578dddf841ac2d903098cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:12 +0000
Subject: [PATCH 39/43] fix: RMTS takes grad_weight into account when gradients
 are given

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index eae1f1b..3c4edaa 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 9346437d55813e48beef9c3f03243a1c23de4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:49 +0000
Subject: [PATCH 40/43] fix: predict_variances_all_levels rejects points of a
 wrong dimension

---
 smt/applications/mfk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 6d120df..2b69fc9 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -26,6 +26,7 @@ else:
 
 from smt.surrogate_models.krg_based import KrgBased
 from smt.sampling_methods import LHS
+from smt.utils.checks import check_nx, ensure_2d_array
 from smt.utils.kriging_utils import (
     cross_distances,
     componentwise_distance,
@@ -467,7 +468,8 @@ class MFK(KrgBased):
         y : np.ndarray
             Evaluation point output variable values
         """
-        # Initialization X = atleast_2d(X)
+        X = ensure_2d_array(X, "X")
+        check_nx(self.nx, X)
         nlevel = self.nlvl
         sigma2_rhos = []
         n_eval, n_features_X = X.shape
-- 
2.43.0


From 0569038768eb2ebfd7dc13082655617e1e3bde6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:46 +0000
Subject: [PATCH 41/43] fix: theta0 and noise0 given as an array of one value
 are spread over the variables

An in-place product with a longer array raises for arrays, so Kriging models
accepted a list of one value but not an array, and MFK no list per level when
there is more than one variable.
---
 smt/applications/mfk.py           | 2 +-
 smt/surrogate_models/krg_based.py | 4 ++--
 smt/surrogate_models/krg_mgp.py   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 2b69fc9..69b6a08 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -704,7 +704,7 @@ class MFK(KrgBased):
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
                     )
-                    self.options["theta0"] *= np.ones((1, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones((1, d))
                 else:
                     raise ValueError(
                         "the length of theta0 (%s) should be equal to the number of dim (%s) or levels of fidelity (%s)."
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 6a019a7..56b7d84 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1149,7 +1149,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1159,7 +1159,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 731b964..0767daa 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -510,7 +510,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From 58df2979e1c255184d0d2e5fc959b27c8b4d49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 42/43] fix: the gradient of the reduced likelihood covers the
 estimated noise

With eval_noise the noise is the last hyperparameter; the gradient treated it
as a correlation parameter, so hyper_opt='TNC' raised inside the optimization:
KRG and KPLS kept their starting point and KPLSK could not be trained.
---
 smt/surrogate_models/krg_based.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 56b7d84..616547f 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -390,15 +390,24 @@ class KrgBased(SurrogateModel):
         dsigma_all = []
         dbeta_all = []
 
+        nb_corr = nb_theta
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
+            # the last hyperparameter is the noise
+            nb_corr = self.D.shape[1]
+
         for i_der in range(nb_theta):
             # Compute R derivatives
-            dr = self._correlation_types[self.options["corr"]](
-                theta, self.D, grad_ind=i_der
-            )
+            if i_der < nb_corr:
+                dr = self._correlation_types[self.options["corr"]](
+                    theta[:nb_corr], self.D, grad_ind=i_der
+                )
+                dR = np.zeros((self.nt, self.nt))
+            else:
+                dr = np.zeros((self.D.shape[0], 1))
+                dR = np.eye(self.nt)
 
             dr_all.append(dr)
 
-            dR = np.zeros((self.nt, self.nt))
             dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
             dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
 
-- 
2.43.0


From fae62d27aacc90897147ee43ec4155a738add935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 43/43] fix: GEKPLS accepts one input variable

The local first-order expansion used the two-variable design for one variable
and indexed a second one.
---
 smt/utils/kriging_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..4521170 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -683,8 +683,12 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
 
     coeff_pls = np.zeros((nt, dim, n_comp))
     for i in range(nt):
-        if dim >= 3:
-            sign = np.roll(bbdesign(int(dim), center=1), 1, axis=0)
+        if dim != 2:
+            if dim == 1:
+                # center, right and left
+                sign = np.array([[0.0], [1.0], [-1.0]])
+            else:
+                sign = np.roll(bbdesign(int(dim), center=1), 1, axis=0)
             _X = np.zeros((sign.shape[0], dim))
             _y = np.zeros((sign.shape[0], 1))
             sign = sign * delta_x * (xlimits[:, 1] - xlimits[:, 0])
-- 
2.43.0

