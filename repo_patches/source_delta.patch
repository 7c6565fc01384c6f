From b125be2588bed716e8273ab4edb890f571fb8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 01/38] fix: LpNorm derivative no longer fails for order >= 3
 (drop unused matrix norm)

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From 91418279d5dc989a11ac8188cbaf954247cf2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 02/38] fix: benchmark problems reject out-of-range derivative
 directions

---
 smt/problems/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/problems/problem.py b/smt/problems/problem.py
index 85a482d..22f13cb 100644
--- a/smt/problems/problem.py
+++ b/smt/problems/problem.py
@@ -79,6 +79,8 @@ class Problem(object):
         if kx is not None:
             if not isinstance(kx, int) or kx < 0:
                 raise TypeError("kx should be None or a non-negative int.")
+            if kx >= self.options["ndim"]:
+                raise ValueError("kx should be less than %i" % self.options["ndim"])
 
         y = self._evaluate(x, kx)
 
-- 
2.43.0


From de3e35595cc398797a87f68000451c96b61dafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 03/38] fix: QP derivatives with several outputs

---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..7240f7f 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx : kx + 1]
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += self.coef[k, :] * x[:, i : i + 1]
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += self.coef[k, :] * x[:, i : i + 1]
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From dfeda4a802b0328bfc1cd408b151d035d349f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 04/38] fix: update_training_derivatives checks the derivative
 data it replaces

---
 smt/surrogate_models/surrogate_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..23a782b 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -225,13 +225,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points[name]:
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From 8a995eafdd0060eac8302275b55f746f2fa79d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 05/38] fix: GENN Jacobian for a single point and for several
 outputs

---
 smt/utils/neural_net/fwd_prop.py |  3 ---
 smt/utils/neural_net/model.py    | 10 ++++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..97df05b 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,9 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        sigma_x = np.reshape(self._scale_factors["x"][1], (1, -1, 1))
+        sigma_y = np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
+        J = self._J_norm * sigma_y / sigma_x
         return X, Y, J
 
     def __init__(self, **kwargs):
@@ -434,9 +436,9 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
-            self.number_of_outputs, self.number_of_inputs, number_of_examples
-        )
+        # One scale factor per output (first axis) and per input (second axis)
+        J = J_norm * np.reshape(sigma_y, (-1, 1, 1)) / np.reshape(sigma_x, (1, -1, 1))
+        J = J.reshape(self.number_of_outputs, self.number_of_inputs, number_of_examples)
 
         return J
 
-- 
2.43.0


From bd40d8c42bf6c681f4303d5441a9984a94dd3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 06/38] fix: GENN back-propagation applies the
 gradient-enhancement weight once, not once per layer

---
 smt/utils/neural_net/bwd_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..a345f9c 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -142,7 +142,7 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
-- 
2.43.0


From 9c7b1e97756db37d954295b3d5f9edacc320c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 07/38] fix: OptionsDictionary.declare validates the default
 before storing the declaration

---
 smt/utils/options_dictionary.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..fa2b4de 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -77,9 +77,11 @@ class OptionsDictionary(object):
     def is_declared(self, key):
         return key in self._declared_entries
 
-    def _assert_valid(self, name, value):
-        values = self._declared_entries[name]["values"]
-        types = self._declared_entries[name]["types"]
+    def _assert_valid(self, name, value, entry=None):
+        if entry is None:
+            entry = self._declared_entries[name]
+        values = entry["values"]
+        types = entry["types"]
 
         if values is not None and types is not None:
             assert value in values or isinstance(
@@ -136,14 +138,10 @@ class OptionsDictionary(object):
         desc : str
             Optional description of the option.
         """
-        self._declared_entries[name] = {
-            "values": values,
-            "types": types,
-            "default": default,
-            "desc": desc,
-        }
+        entry = {"values": values, "types": types, "default": default, "desc": desc}
 
         if default is not None:
-            self._assert_valid(name, default)
+            self._assert_valid(name, default, entry)
 
+        self._declared_entries[name] = entry
         self._dict[name] = default
-- 
2.43.0


From b2d41ac6b79d814700c32066e34e33d6a79ef8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 08/38] fix: compute_rms_error at the training points failed
 for a derivative direction

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From 3d6e8ec7bb0f9417dbce880177a0fa95aed5692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 09/38] fix: CubicLineSearch crashed when the cubic interpolant
 has no usable minimum

---
 smt/utils/line_search.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..09995b9 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -240,21 +240,21 @@ class CubicLineSearch(BracketedLineSearch):
         d0 = c1
         d1 = 2 * c2
         d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
 
         a = None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
+        for r in np.roots([d2, d1, d0]):
+            if (a1 <= r <= a2 or a2 <= r <= a1) and np.isreal(r):
+                px = self._phi(r)
+                if px < p:
+                    a = r
+                    p = px
+                    dp = self._dphi(r)
+
+        if a is None:
+            # The interpolation yields no usable step: bisect the interval
+            return BracketedLineSearch._compute_minimum(
+                self, a1, p1, dp1, a2, p2, dp2
+            )
 
         return a, p, dp
-- 
2.43.0


From 83fcceec49b138dd31da61d22d1cdade44d8914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 10/38] fix: Printer restores the nesting depth when the timed
 operation fails

---
 smt/utils/printer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From 96ba424cf12f1f521d9110b754cb7e04b22443ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 11/38] fix: cached_operation with caching disabled no longer
 reads files of a directory named None

---
 smt/utils/caching.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..4499579 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -33,13 +33,15 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     """
     checksum = _caching_checksum(inputs_dict)
     filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
-    try:
-        with open(filename, "rb") as f:
-            outputs_dict = pickle.load(f)
-        load_successful = True
-    except:
-        outputs_dict = {}
-        load_successful = False
+    outputs_dict = {}
+    load_successful = False
+    if data_dir:
+        try:
+            with open(filename, "rb") as f:
+                outputs_dict = pickle.load(f)
+            load_successful = True
+        except:
+            outputs_dict = {}
 
     yield outputs_dict
 
-- 
2.43.0


From dc34ede1d22358dbfa17e01fcfdd8bc67835fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 12/38] fix: RBF restores its system matrix when the training
 result is loaded from the cache

---
 smt/surrogate_models/rbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..e7124e9 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -141,9 +141,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From f783ac605eb2ddd8d771a373a8ac8b58c0a5e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 13/38] fix: DenseCholeskySolver returns the solution for
 strided solution arrays

---
 smt/utils/linear_solvers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..9f37c70 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
-- 
2.43.0


From f950550dade9f6bd5cc28cc007d56dc3bcaf02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 14/38] fix: cloned linear solvers keep the configured options

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 9f37c70..e4f431a 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
-- 
2.43.0


From 5d6a04cf17ef141ead49b233ee2400a37ac7bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 15/38] fix: RBF keeps its d0 option and scales every input
 when retrained with another dimension

---
 smt/surrogate_models/rbf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index e7124e9..4255caf 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,7 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        d0 = np.atleast_1d(options["d0"]) * np.ones(nx)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +90,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
-- 
2.43.0


From 8d8f78970f2424ac2bd00057aa5faddca86adf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 16/38] fix: LHS with the ese criterion failed or hung for few
 points (unused correlation, single point)

---
 smt/sampling_methods/lhs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..28b6b28 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -308,10 +308,9 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
+        if nt < 2:
+            # a single point cannot be exchanged with another one
+            return P0
 
         P, historic = self._maximinESE(
             P0,
-- 
2.43.0


From dfacdd9e6cf5e0a814a2dcfe05a246bfdf2ee8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 17/38] fix: FullFactorial rejected integer weights and
 rescaled the caller's weights in place

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From 91788382545c272fdad0d1fc813a3988fee6efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 18/38] fix: cast_to_discrete_values selects exactly one level
 when levels are equal

---
 smt/applications/mixed_integer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..9f7cdee 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -126,11 +126,11 @@ def cast_to_discrete_values(xtypes, x):
 
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             # Categorial : The biggest level is selected.
+            # (exactly one level: the first one when several are equal)
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            index = np.argmax(xenum, axis=1)
+            xenum[:] = 0
+            xenum[np.arange(xenum.shape[0]), index] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From 1f458cace07c46cc87da92f0c647c9d7cfd55988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 19/38] fix: MixedIntegerSurrogateModel keeps the name of the
 training data

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 9f7cdee..b143401 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -288,7 +288,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
-        super().set_training_values(xt2, yt)
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
-- 
2.43.0


From 261c67fac848ef6d42f835d436b74ada891e949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 20/38] fix: standardization to the unit cube leaves constant
 columns finite

---
 smt/utils/kriging_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..4429fa6 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -72,7 +72,7 @@ def standardization(X, y, scale_X_to_unit=False):
     else:
         X_offset = np.mean(X, axis=0)
         X_scale = X.std(axis=0, ddof=1)
-        X_scale[X_scale == 0.0] = 1.0
+    X_scale[X_scale == 0.0] = 1.0
 
     y_mean = np.mean(y, axis=0)
     y_std = y.std(axis=0, ddof=1)
-- 
2.43.0


From c94b07eb37cd3b8cd447d642703b25ccf0d3d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 21/38] fix: expected improvement is zero where the predicted
 variance is zero, for several points too

---
 smt/applications/ego.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..666a0ec 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -205,6 +205,7 @@ class EGO(SurrogateBasedApplication):
         if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
             return 0.0
         ei = args1 + args2
+        ei[sig == 0.0] = 0.0
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
-- 
2.43.0


From 66651bfc54f4e858c751f17acd542137aab0cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 22/38] fix: EGO evaluates the initial mixed-integer doe in the
 user's space

---
 smt/applications/ego.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 666a0ec..bdfe2d6 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -289,7 +289,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
-- 
2.43.0


From 6be300aba90b35d53228dfb25bf22040f0b16be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 23/38] fix: EGO enriches mixed-integer data with feasible
 points

---
 smt/applications/ego.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bdfe2d6..96b9f5b 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -166,6 +166,8 @@ class EGO(SurrogateBasedApplication):
                             k, p
                         )
                     )
+                if self.mixint:
+                    x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
                 # Set temporaly the y-coord point based on the kriging prediction
                 y_et_k = self._get_virtual_point(np.atleast_2d(x_et_k), y_data)
 
-- 
2.43.0


From 9f9605e747b5520ab3c55bbd9efbe5b3ffd97f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 24/38] fix: EGO keeps the result of the last allowed internal
 optimization

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 96b9f5b..ccabe71 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -371,7 +371,7 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
-- 
2.43.0


From ead15f05a5c093be75bee51b6b13512381358f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 25/38] fix: VFM no longer alters the option dictionaries given
 by the user

---
 smt/applications/vfm.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..b09b88e 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -158,9 +158,9 @@ class VFM(SurrogateBasedApplication):
         self._check_param()
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        options_LF = dict(self.options["options_LF"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        sm_LF = self.options["name_model_LF"](**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -170,10 +170,10 @@ class VFM(SurrogateBasedApplication):
         sm_LF.train()
 
         # compute the bridge data
+        options_bridge = dict(self.options["options_bridge"])
+        self.B_deriv = options_bridge.pop("deriv", False)
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +189,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +200,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self.options["name_model_bridge"](**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -268,9 +266,3 @@ class VFM(SurrogateBasedApplication):
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
-- 
2.43.0


From 9ee7c712d1f72b5d607bc9fec7ed7e09e6448d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 26/38] fix: kriging variance solves with the lower triangular
 factor transposed

---
 smt/surrogate_models/krg_based.py | 1 +
 smt/surrogate_models/krg_mgp.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..e35f708 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -751,6 +751,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..731b964 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -349,7 +349,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From decea2042acdd0f093823430f93ccce38dfa1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 27/38] fix: derivatives of the kriging variance at several
 points

---
 smt/surrogate_models/krg_based.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index e35f708..c6ecf41 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -778,6 +778,14 @@ class KrgBased(SurrogateModel):
 
         # Initialization
         n_eval, n_features_x = x.shape
+        if n_eval > 1:
+            # the formulas below are written for a single point
+            return np.vstack(
+                [
+                    self._predict_variance_derivatives(x[i : i + 1, :])
+                    for i in range(n_eval)
+                ]
+            )
         x = (x - self.X_offset) / self.X_scale
         theta = self.optimal_theta
         # Get pairwise componentwise L1-distances to the input training set
-- 
2.43.0


From 2355b6ccb7a3cea87210125569d2f94d29a59aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 28/38] fix: likelihood gradient with respect to an estimated
 noise

---
 smt/surrogate_models/krg_based.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index c6ecf41..c2d1abf 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -387,15 +387,25 @@ class KrgBased(SurrogateModel):
         dsigma_all = []
         dbeta_all = []
 
+        # when the noise is estimated, it comes after the correlation parameters
+        nb_corr = nb_theta
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
+            nb_corr = self.D.shape[1]
+
         for i_der in range(nb_theta):
             # Compute R derivatives
-            dr = self._correlation_types[self.options["corr"]](
-                theta, self.D, grad_ind=i_der
-            )
+            if i_der < nb_corr:
+                dr = self._correlation_types[self.options["corr"]](
+                    theta[0:nb_corr], self.D, grad_ind=i_der
+                )
+                dR = np.zeros((self.nt, self.nt))
+            else:
+                # the noise is added on the diagonal of R
+                dr = np.zeros((self.D.shape[0], 1))
+                dR = np.eye(self.nt)
 
             dr_all.append(dr)
 
-            dR = np.zeros((self.nt, self.nt))
             dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
             dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
 
-- 
2.43.0


From 2d01706800efd6a79e855f7d9437db8de47da9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 29/38] fix: validation error of an expert compares outputs
 point by point

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..8cfcc3e 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -551,7 +551,7 @@ class MOE(SurrogateBasedApplication):
             sm.train()
 
             expected = test_values[:, dim]
-            actual = sm.predict_values(test_values[:, 0:dim])
+            actual = sm.predict_values(test_values[:, 0:dim]).reshape(-1)
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
             # mse = (l_two**2) / len(expected)
-- 
2.43.0


From 2efe06f7bc122722bbdbc79457f03051952ddfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 30/38] fix: clustering outputs given to MOE

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 8cfcc3e..c30ad3d 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -206,7 +206,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if self.c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
-- 
2.43.0


From 0d8888a82c093ffd686b766331b96fa34f6471ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 31/38] fix: MOE memberships at points far from the clusters

---
 smt/applications/moe.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index c30ad3d..d1d7bfe 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -702,14 +702,13 @@ class MOE(SurrogateBasedApplication):
             x membership probability for each cluster
         """
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
+        logpdfs = np.array([distribs[k].logpdf(x) for k in range(len(weights))])
 
-        probs = weights * rvs
-        rad = np.sum(probs)
-
-        if rad > 0:
-            probs = probs / rad
-        return probs
+        # relatively to the largest one: far from the clusters all the densities
+        # underflow to zero
+        logs = np.log(weights) + logpdfs
+        probs = np.exp(logs - np.max(logs))
+        return probs / np.sum(probs)
 
     def _proba_cluster(self, x, distribs=None):
         """
-- 
2.43.0


From ff3e9c84fdb4ed2d80a752b6abbd2205d7ff1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 32/38] fix: MFK derivatives with a linear trend

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..4168aa1 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -590,7 +590,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, kx + 1] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From 4585936c03f77163d2fcad0442d8d161f87c6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:35 +0000
Subject: [PATCH 33/38] fix: MFK rejects missing fidelity levels instead of
 ignoring data

---
 smt/applications/mfk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4168aa1..66ba27a 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -206,6 +206,10 @@ class MFK(KrgBased):
             i = i + 1
         xt.append(self.training_points[None][0][0])
         yt.append(self.training_points[None][0][1])
+        if sum(len(data) > 0 for data in self.training_points.values()) != len(xt):
+            raise ValueError(
+                "Lower fidelity levels must be named 0, 1, 2, ... without gaps"
+            )
 
         self._check_list_structure(xt, yt)
         self._check_param()
-- 
2.43.0


From 2ca1aa9568957c3cd71414d9310ec101ceb1876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:52 +0000
Subject: [PATCH 34/38] fix: MFK with a single level and scalar initial noises

---
 smt/applications/mfk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 66ba27a..5472c8f 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -712,6 +712,10 @@ class MFK(KrgBased):
                     % (len(self.options["noise0"]), self.nlvl)
                 )
 
+        self.options["noise0"] = [
+            [noise] if np.ndim(noise) == 0 else noise for noise in self.options["noise0"]
+        ]
+
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
                 if len(self.X[i]) == len(np.unique(self.X[i])):
-- 
2.43.0


From 6f0855a86afa31db72d820fd8eb0b50abb87198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 35/38] fix: apply grad_weight to the training derivatives of
 RMTS

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..4d9db34 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From d0a5b52a1c89855165e9f50247fd52f6f8370d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 36/38] fix: output derivatives of RMTS with several outputs
 use each output's Hessian at the solution

---
 smt/surrogate_models/rmts.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 4d9db34..3023aa4 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -543,7 +543,7 @@ class RMTS(SurrogateModel):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
         n = x.shape[0]
-        nw = self.mtx.shape[0]
+        nw = self.sol.shape[0]
         nx = x.shape[1]
         ny = self.sol.shape[1]
 
@@ -554,8 +554,6 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
-
         dy_dyt = {}
         for kx in self.training_points[None]:
             nt = self.training_points[None][kx][0].shape[0]
@@ -567,12 +565,15 @@ class RMTS(SurrogateModel):
                     self.sol[:, ind_y], p, yt_dict, kx
                 )
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
-
             dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
+            for ind_y in range(ny):
+                dR_dw = self._opt_hess(
+                    self.sol[:, ind_y], p, self._get_yt_dict(ind_y)
+                )
+                solver = get_solver(self.options["derivative_solver"])
+                solver._setup(dR_dw, self.printer)
+
+                for ind_t in range(nt):
                     solver._solve(
                         dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
-- 
2.43.0


From 0e6573666eef7741d25a61a921fa9eb2e452627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:58 +0000
Subject: [PATCH 37/38] fix: RMTS trains when the initial coefficients are
 already optimal

---
 smt/surrogate_models/rmts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 3023aa4..2a7cdb5 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -316,6 +316,9 @@ class RMTS(SurrogateModel):
                     % (0, ind_y, norm, fval)
                 )
 
+                # needed when the initial guess is already optimal (e.g. zero outputs)
+                self.mtx = self._opt_hess(sol[:, ind_y], p, yt_dict)
+
                 iter_count = 0
                 while (
                     iter_count < options["nonlinear_maxiter"]
-- 
2.43.0


From dbe70c041eca975d006dfc64209eb5eee3147e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:41 +0000
Subject: [PATCH 38/38] fix: KPLSK keeps the n_comp and theta0 options across
 trainings

---
 smt/surrogate_models/kplsk.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smt/surrogate_models/kplsk.py b/smt/surrogate_models/kplsk.py
index cdd7f14..e8d2942 100644
--- a/smt/surrogate_models/kplsk.py
+++ b/smt/surrogate_models/kplsk.py
@@ -24,6 +24,16 @@ class KPLSK(KPLS):
         )
         self.name = "KPLSK"
 
+    def _new_train(self):
+        # the second step of the hyperparameter search overwrites these options:
+        # they are the user's settings for the next training
+        n_comp, theta0 = self.options["n_comp"], self.options["theta0"]
+        try:
+            super(KPLSK, self)._new_train()
+        finally:
+            self.options["n_comp"] = n_comp
+            self.options["theta0"] = theta0
+
     def _componentwise_distance(self, dx, opt=0, theta=None, return_derivative=False):
         if opt == 0:
             # Kriging step
-- 
2.43.0

