From a9c1bc2ea1b3cd5c6be0e99f0cf43c490ec084ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 01/54] fix: over-relaxed iterate of graphical_lasso is a
 convex/affine mix of K and Z

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..2c99786 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -159,7 +159,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From 14fa646becad41e310a70e0a9af610ea49e5052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 02/54] fix: init_precision accepts an array as initial
 precision

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 2c99786..35ba42a 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,7 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, str) and mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
-- 
2.43.0


From 2396f767ac06baaa72535775e0ee3d4b94dde3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 03/54] fix: n_iter reported by the covariance solvers counts
 the iterations run

---
 regain/covariance/graphical_lasso_.py                    | 2 +-
 regain/covariance/infimal_convolution_.py                | 2 +-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/latent_graphical_lasso_.py             | 2 +-
 regain/covariance/latent_time_graphical_lasso_.py        | 2 +-
 regain/covariance/latent_time_matrix_decomposition.py    | 2 +-
 regain/covariance/missing_graphical_lasso_.py            | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 35ba42a..bf7fa9d 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -199,7 +199,7 @@ def graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..485f435 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -168,5 +168,5 @@ def infimal_convolution(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..8a04a56 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -388,7 +388,7 @@ def kernel_latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..3a7bb95 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -178,7 +178,7 @@ def latent_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..97bedc5 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -344,7 +344,7 @@ def latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..d2bc747 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -313,7 +313,7 @@ def latent_time_matrix_decomposition(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..571e853 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -190,7 +190,7 @@ def missing_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
     return return_list
 
 
-- 
2.43.0


From 33c93fc839acf509bcbb1ccce22b211a27a33d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 04/54] fix: missing_graphical_lasso history records the
 log-likelihood value

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 571e853..bada4f4 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
-- 
2.43.0


From 6aaba6a546b792cbce416a605f97b813b106c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 05/54] fix: kernel latent estimators forward phi to the solver

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 8a04a56..72d0e1e 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -573,6 +573,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -790,6 +791,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -873,6 +875,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From 700ca4d2243da657c9e600fcd3fc58d8f69be302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 06/54] fix: SimilarityLatentTimeGraphicalLasso passes the
 latent kernel it builds to the solver

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 72d0e1e..2d18ba7 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -735,6 +735,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
     def _fit(self, emp_cov, n_samples):
         if self.kernel_psi is None:
             n_times = emp_cov.shape[0]
+            kernel_phi = self.kernel_phi
 
             if self.kernel_phi is None or callable(self.kernel_phi):
                 # raise ValueError('not implemented')
@@ -785,7 +786,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
-- 
2.43.0


From 59d4e2976a071fbee21845bad447596f7571161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:13 +0000
Subject: [PATCH 07/54] fix: kernel estimators accept a precomputed kernel
 matrix

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 8 ++++++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 2d18ba7..96f5b87 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = self.kernel_phi
+            if kernel_phi is None:
+                kernel_phi = np.identity(self.classes_.size)
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +555,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = self.kernel_psi
+            if kernel_psi is None:
+                kernel_psi = np.identity(self.classes_.size)
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..b534182 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,9 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From cebfa4c5d5cfa202d4d188f21e41bc2644ba8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:18 +0000
Subject: [PATCH 08/54] fix: SimilarityTimeGraphicalLasso stores ker_param

---
 regain/covariance/kernel_time_graphical_lasso_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index b534182..5b056c4 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -678,6 +678,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             compute_objective=compute_objective,
             return_history=return_history,
             psi=psi,
+            ker_param=ker_param,
             init=init,
         )
         # in this class, `kernel` is either a matrix TxT or None
-- 
2.43.0


From 5ece809f3fd11cc4c391f8ebfe1cc480252b2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:18 +0000
Subject: [PATCH 09/54] fix: similarity estimators do not overwrite n_clusters
 during fit

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 5 ++---
 regain/covariance/kernel_time_graphical_lasso_.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 96f5b87..6a03664 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -756,8 +756,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
             kernel_psi = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = None
             for i in range(self.max_iter_ext):
                 # E step - discover best kernel
@@ -770,7 +769,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 # kernel_psi = theta * self.beta
                 kernel_psi = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel_psi)
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 5b056c4..05c9dd6 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -700,8 +700,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
 
             labels_pred_old = None
             for i in range(self.max_iter_ext):
@@ -724,7 +723,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 kernel = theta
 
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
-- 
2.43.0


From 2d91729f2da022c430bfd5a49142f939216656b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:03 +0000
Subject: [PATCH 10/54] fix: GLM objectives return inf for asymmetric matrices
 instead of raising

---
 regain/generalized_linear_model/glm_ising.py   | 2 +-
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..b1ba12a 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..b704dc4 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From a120578d2cebdb207133d0efc74a56af956c0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:06 +0000
Subject: [PATCH 11/54] fix: Ising gradient sums over every sample

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index b1ba12a..acd28fc 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From 24b1c48dcec04ef9528a648adfa5acf909399140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:10 +0000
Subject: [PATCH 12/54] fix: union reconstruction averages the two
 neighbourhood estimates of an edge

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From 4cf90a4766274c0af91dd9bc7ad04a6350c88260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:13 +0000
Subject: [PATCH 13/54] fix: build_adjacency_matrix rejects unknown
 reconstruction rules

---
 regain/generalized_linear_model/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 4d1df22..0642af9 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -33,6 +33,8 @@ def build_adjacency_matrix(neighbours, how="union"):
         out = (out + out.T) / 2
         out[np.where(binarized == 0)] = 0
         assert np.all(out == out.T)
+    else:
+        raise ValueError("Value of %s not understood." % how)
     return out
 
 
-- 
2.43.0


From 166ac451778b3a8f1f4e497a833776967398fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:16 +0000
Subject: [PATCH 14/54] fix: n_iter reported by the GLM solvers counts the
 iterations run

---
 regain/generalized_linear_model/glm_gaussian.py | 2 +-
 regain/generalized_linear_model/glm_ising.py    | 2 +-
 regain/generalized_linear_model/glm_poisson.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..04ec042 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -95,7 +95,7 @@ def fit_each_variable(
         return_list.append(thetas)
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
 
     return return_list
 
diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index acd28fc..e61b2b1 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -168,7 +168,7 @@ def _fit(
         return_list.append(thetas)
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
 
     return return_list
 
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index b704dc4..d15f5ac 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -145,7 +145,7 @@ def fit_each_variable(
         return_list.append(thetas)
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
 
     return return_list
 
-- 
2.43.0


From 5c2a41c558960c162e8b5e274fa6b30a9cf9797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:19 +0000
Subject: [PATCH 15/54] fix: Gaussian_GLM_GM forwards gamma, tol and max_iter
 to the solver

---
 regain/generalized_linear_model/glm_gaussian.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index 04ec042..e9cd854 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,15 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X,
+                ix,
+                self.alpha,
+                gamma=gamma,
+                tol=self.tol,
+                max_iter=self.max_iter,
+                verbose=max(0, self.verbose - 1),
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
-- 
2.43.0


From 7bd9356d415049f5635970367dfd5c33a1bd3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:22 +0000
Subject: [PATCH 16/54] fix: Poisson models forward gamma and max_iter to the
 solver

---
 regain/generalized_linear_model/glm_poisson.py      | 8 +++++++-
 regain/generalized_linear_model/glm_time_poisson.py | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index d15f5ac..031d9fb 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -267,7 +267,13 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    gamma=self.gamma,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..19ab4c3 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -173,6 +173,7 @@ def _fit_time_poisson_model(
                     X[t, :, :],
                     v,
                     alpha,
+                    gamma=gamma,
                     tol=tol,
                     verbose=inner_verbose,
                     A=A[t, :, :],
-- 
2.43.0


From 90c8ee1c996e1c89e6db3034e3547d7732d31b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:25 +0000
Subject: [PATCH 17/54] fix: temporal Ising and Poisson objectives add the loss
 instead of subtracting it

---
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..cf90740 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 19ab4c3..e5dd4c4 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -50,7 +50,7 @@ def loss_poisson(X, K, n_samples=None):
     """Loss function for time-varying poisson model."""
     if n_samples is None:
         n_samples = np.ones(X.shape[0])
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From 6114fe3ea0612f1b5fb1d1beda33daa0ce6aa50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:28 +0000
Subject: [PATCH 18/54] fix: temporal GLM estimators accept a precomputed
 kernel matrix

---
 regain/generalized_linear_model/glm_time_ising.py   | 4 +++-
 regain/generalized_linear_model/glm_time_poisson.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index cf90740..6c13ce6 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,9 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index e5dd4c4..9df3a40 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -498,7 +498,9 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From 9038c48c1e9275d25ea25f339a5e964094d511f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:31 +0000
Subject: [PATCH 19/54] fix: similarity GLM estimators do not overwrite
 n_clusters during fit

---
 regain/generalized_linear_model/glm_time_ising.py   | 5 ++---
 regain/generalized_linear_model/glm_time_poisson.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 6c13ce6..af5dad1 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -705,8 +705,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 out = _fit_time_ising_model(
@@ -730,7 +729,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 9df3a40..a3f8c3f 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -702,14 +702,13 @@ class SimilarityTemporalPoissonModel(TemporalPoissonModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
-- 
2.43.0


From e6b57bcacb8e1cca7899dbc6efbcd7ebbac6ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:33 +0000
Subject: [PATCH 20/54] fix: TemporalPoissonModel rejects negative data

---
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index a3f8c3f..3b710ac 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -420,7 +420,7 @@ class TemporalPoissonModel(BaseEstimator):
         self.classes_, n_samples = np.unique(y, return_counts=True)
         X = np.around(X)  # to ensure discreteness
         self.data = X.copy()
-        if np.any(self.data) < 0:
+        if np.any(self.data < 0):
             raise ValueError(
                 "Using the poisson distribution your data has " "to be positive"
             )
-- 
2.43.0


From cf7568e5cf2095e50edf98b8fc438bbc9f2cbbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:36 +0000
Subject: [PATCH 21/54] fix: SimilarityTemporalIsingModel stores ker_param

---
 regain/generalized_linear_model/glm_time_ising.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index af5dad1..53b097a 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -665,6 +665,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             compute_objective=compute_objective,
             return_history=return_history,
             psi=psi,
+            ker_param=ker_param,
         )
         # in this class, `kernel` is either a matrix TxT or None
         # if None, automatically learn all the weights
-- 
2.43.0


From 391e95410745438aac0e2f0505c8e8b240a0b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:39 +0000
Subject: [PATCH 22/54] fix: SimilarityTemporalIsingModel does not draw from
 the global random state

---
 regain/generalized_linear_model/glm_time_ising.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 53b097a..0a01fae 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -699,10 +699,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             # from scipy.optimize import minimize
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
-            self.precision_ = np.random.rand(
-                self.classes_.shape[0], X.shape[1], X.shape[1]
-            )
-            n_times = self.precision_.shape[0]
+            n_times = self.classes_.size
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-- 
2.43.0


From 5aebc3741efb1175412a21f3d15b37a305f82b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:42 +0000
Subject: [PATCH 23/54] fix: remove leftover debugging output from the Ising
 model

---
 regain/generalized_linear_model/glm_ising.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index e61b2b1..42a4606 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -127,7 +127,6 @@ def _fit(
                 theta_new = theta - gamma * grad
                 theta = (theta_new + theta_new.T) / 2
                 theta = soft_thresholding_off_diagonal(theta, alpha * gamma)
-                print(theta)
                 loss_new = loss(X, theta)
                 loss_old = loss(X, theta_old)
                 # Line search
@@ -298,7 +297,6 @@ class IsingGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = min(0, self.verbose - 1)
                 selector = np.array([i for i in range(X.shape[1]) if i != ix])
-                print("pd")
                 res = (
                     LogisticRegression(
                         C=1 / self.alpha,
-- 
2.43.0


From 49f5308e30ce306288f643b246adc2a065d698d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:44 +0000
Subject: [PATCH 24/54] fix: compute_mean averages over the samples

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index bada4f4..dcac3b0 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -76,7 +76,7 @@ def compute_cs(means, K, X):
 def compute_mean(X, cs):
     aux = np.nan_to_num(np.copy(X))
     aux += cs
-    return np.sum(aux, axis=0)
+    return np.mean(aux, axis=0)
 
 
 def missing_graphical_lasso(
-- 
2.43.0


From 2172d7d34c8a4109022c749218d37ae84ddb2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:02 +0000
Subject: [PATCH 25/54] fix: lasso solvers return the history only when asked
 to

---
 regain/linear_model/group_lasso_.py | 2 +-
 regain/linear_model/lasso_.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 7e32de5..bf75c17 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -135,7 +135,7 @@ def group_lasso(
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, hist if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, groups, x, z):
diff --git a/regain/linear_model/lasso_.py b/regain/linear_model/lasso_.py
index 2dde28e..6a393bc 100644
--- a/regain/linear_model/lasso_.py
+++ b/regain/linear_model/lasso_.py
@@ -117,7 +117,7 @@ def lasso(A, b, lamda=1.0, rho=1.0, alpha=1.0, max_iter=1000, tol=1e-4, rtol=1e-
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, history if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, x, z):
-- 
2.43.0


From ac93fb179360fd824a45bd13f20022e9f4ba7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 26/54] fix: group_lasso keeps a copy of the previous iterate
 for the dual residual

---
 regain/linear_model/group_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index bf75c17..5395b13 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -114,7 +114,7 @@ def group_lasso(
             x /= rho
 
         # % z-update with relaxation
-        zold = z
+        zold = z.copy()
         x_hat = alpha * x + (1 - alpha) * zold
         for group in groups:
             z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
-- 
2.43.0


From 5ac671ffd293a858e92374baf6748234dd0a0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:06 +0000
Subject: [PATCH 27/54] fix: group_lasso shrinks each group as a block

---
 regain/linear_model/group_lasso_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 5395b13..68a908a 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -36,7 +36,7 @@ import numpy as np
 from six.moves import range
 
 from regain.linear_model.lasso_ import lu_factor
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding_vector
 from regain.utils import flatten
 
 
@@ -117,7 +117,7 @@ def group_lasso(
         zold = z.copy()
         x_hat = alpha * x + (1 - alpha) * zold
         for group in groups:
-            z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
+            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
 
         # % u-update
         u += x_hat - z
-- 
2.43.0


From 2a1d95f11fb4620f9ad565a0dd92b6917a0d6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:09 +0000
Subject: [PATCH 28/54] fix: n_iter reported by group_lasso_overlap counts the
 iterations run

---
 regain/linear_model/group_lasso_overlap_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..1fc5241 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -177,7 +177,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
         else:
             count = 0
 
-    return z, hist, k
+    return z, hist, k + 1
 
 
 class GroupLassoOverlap(LinearModel, RegressorMixin):
-- 
2.43.0


From 27af3b2fc3a2678831f81493b9be4c754907d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:12 +0000
Subject: [PATCH 29/54] fix: GroupLassoOverlap stores groups as given

---
 regain/linear_model/group_lasso_overlap_.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 1fc5241..c62caaf 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -215,7 +215,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
         self.alpha = alpha
         self.coef_ = None
         self.fit_intercept = fit_intercept
-        self.groups = groups or []
+        self.groups = groups
         self.rho = rho
         self.verbose = verbose
         self.normalize = normalize
@@ -310,6 +310,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
             if coef_.ndim == 1:
                 coef_ = coef_[None, :]
 
+        groups = self.groups or []
         dual_gaps_ = np.zeros(n_targets, dtype=X.dtype)
         if self.n_jobs == 1:
             self.n_iter_ = []
@@ -320,7 +321,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         lamda=self.alpha,
-                        groups=self.groups,
+                        groups=groups,
                         rho=self.rho,
                         max_iter=self.max_iter,
                         tol=self.tol,
@@ -332,7 +333,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         lamda=self.alpha,
-                        groups=self.groups,
+                        groups=groups,
                         rho=self.rho,
                         max_iter=self.max_iter,
                         tol=self.tol,
@@ -345,7 +346,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         tau=self.alpha,
-                        blocks=self.groups,
+                        blocks=groups,
                         max_iter_ext=self.max_iter,
                         tol_ext=self.tol,
                         verbose=self.verbose,
@@ -366,7 +367,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             lamda=self.alpha,
-                            groups=self.groups,
+                            groups=groups,
                             rho=self.rho,
                             max_iter=self.max_iter,
                             tol=self.tol,
@@ -383,7 +384,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             lamda=self.alpha,
-                            groups=self.groups,
+                            groups=groups,
                             rho=self.rho,
                             max_iter=self.max_iter,
                             tol=self.tol,
@@ -401,7 +402,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             tau=self.alpha,
-                            blocks=self.groups,
+                            blocks=groups,
                             max_iter_ext=self.max_iter,
                             tol_ext=self.tol,
                             verbose=self.verbose,
-- 
2.43.0


From f610a6e4b068a5c973e53455d6f2a005458dacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:14 +0000
Subject: [PATCH 30/54] fix: tgl_forward_backward calls choose_lamda with the
 arguments it accepts

---
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..a472f17 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From b3708bf0bb1bd84e13ea66831a06d4259c1bf1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:17 +0000
Subject: [PATCH 31/54] fix: choose_lamda passes the point to the objective by
 name

---
 regain/forward_backward/forward_backward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
-- 
2.43.0


From 2dc5a309416f288ab03bfec8f2276c1ec21f724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:20 +0000
Subject: [PATCH 32/54] fix: TimeGraphicalLassoForwardBackward does not
 overwrite alpha during fit

---
 regain/forward_backward/time_graphical_lasso_.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index a472f17..643d0dd 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -521,13 +521,14 @@ class TimeGraphicalLassoForwardBackward(TimeGraphicalLasso):
             Empirical covariance of data.
 
         """
-        if self.alpha == "max":
-            self.alpha = max(alpha_max(e) for e in emp_cov)
+        alpha = self.alpha
+        if alpha == "max":
+            alpha = max(alpha_max(e) for e in emp_cov)
 
         out = tgl_forward_backward(
             emp_cov,
             n_samples=n_samples,
-            alpha=self.alpha,
+            alpha=alpha,
             beta=self.beta,
             tol=self.tol,
             max_iter=self.max_iter,
-- 
2.43.0


From 116b30d814f150d2fc5312eb36cbf09568f411fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:23 +0000
Subject: [PATCH 33/54] fix: discriminant analysis estimators store their
 parameters as given

---
 regain/discriminant_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index e840324..c7b8f67 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -87,7 +87,7 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
 
     def __init__(self, estimator, ensure_posdef=False, priors=None):
         self.estimator = estimator
-        self.priors = np.asarray(priors) if priors is not None else None
+        self.priors = priors
         self.ensure_posdef = ensure_posdef
 
     def fit(self, X, y):
@@ -114,7 +114,7 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
         if self.priors is None:
             self.priors_ = np.bincount(y) / float(n_samples)
         else:
-            self.priors_ = self.priors
+            self.priors_ = np.asarray(self.priors)
         # means = []
         for ind in range(n_classes):
             Xg = X[y == ind, :]
@@ -198,6 +198,7 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
 
 class PrecomputedDiscriminantAnalysis(BaseEstimator):
     def __init__(self, precision):
+        self.precision = precision
         self.precision_ = np.array(precision)
 
     def fit(self, X, y=None):
-- 
2.43.0


From 54b090b214ae0c96523ae91e831845a72153653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 34/54] fix: DiscriminantAnalysis does not alter the precision
 of the wrapped estimator

---
 regain/discriminant_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index c7b8f67..4edf4cc 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -127,7 +127,7 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
             # data.append(Xg)
 
         self.estimator.fit(X, y)
-        self.precision_ = self.estimator.precision_
+        self.precision_ = np.array(self.estimator.precision_)
 
         if hasattr(self.estimator, "covariance_"):
             self.covariance_ = self.estimator.covariance_
-- 
2.43.0


From 879dc05c702e6382c9185c037985a3ed97bae492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 35/54] fix: mean_structure_error aggregates the Matthews
 coefficient too

---
 regain/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..cd1855e 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -576,6 +576,7 @@ def mean_structure_error(true, preds):
         dor=[],
         balanced_accuracy=[],
         average_precision=[],
+        mcc=[],
     )
     for p in preds:
         res = structure_error(true, p, no_diagonal=True)
-- 
2.43.0


From 6fcdba3dca9276b8576ad1f1581295a306d3573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:27 +0000
Subject: [PATCH 36/54] fix: structure_error is defined for an empty true graph

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index cd1855e..114bbd5 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -489,8 +489,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     TP = np.count_nonzero((res == 3).astype(float))
 
     precision = TP / (TP + FP) if TP + FP > 0 else 0
-    recall = TP / (TP + FN)
-    miss_rate = FN / (TP + FN) or 1 - recall
+    recall = TP / (TP + FN) if TP + FN > 0 else 0
+    miss_rate = FN / (TP + FN) if TP + FN > 0 else 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
     accuracy = (TP + TN) / true.size
-- 
2.43.0


From bcfefc81970f82f27a85548535debca0a3b17a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:30 +0000
Subject: [PATCH 37/54] fix: error_norm spectral norm uses an existing numpy
 function

---
 regain/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index 114bbd5..5722ce7 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -373,7 +373,7 @@ def error_norm(
     if norm == "frobenius":
         squared_norm = np.sum(error**2)
     elif norm == "spectral":
-        squared_norm = np.amax(np.linalg.svdvals(np.dot(error.T, error)))
+        squared_norm = np.amax(np.linalg.svd(np.dot(error.T, error), compute_uv=False))
     else:
         raise NotImplementedError("Only spectral and frobenius norms are implemented")
     # optionally scale the error norm
-- 
2.43.0


From 2f01293d522b872c9ec0cac890b716f9286705b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:32 +0000
Subject: [PATCH 38/54] fix: convert_data_to_2d accepts classes of different
 size

---
 regain/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 5722ce7..e202968 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -285,8 +285,7 @@ def convert_data_to_2d(data):
     """
     X = np.vstack(data)
     y = (
-        np.array([np.ones(x.shape[0]) * i for i, x in enumerate(data)])
-        .flatten()
+        np.concatenate([np.ones(x.shape[0]) * i for i, x in enumerate(data)])
         .astype(int)
     )
     return X, y
-- 
2.43.0


From fe898685c5fc20aff4c43bb020e00b28dc3f78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:35 +0000
Subject: [PATCH 39/54] fix: make_sin normalizes the matrices when asked to

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..0e2c9a3 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -507,7 +507,8 @@ def make_sin(
     )
 
     if normalize:
-        map(normalize_matrix, Y)  # in place
+        for matrix in Y:
+            normalize_matrix(matrix)  # in place
     # assert positive_definite(Y)
     ensure_posdef(Y)
 
-- 
2.43.0


From 02e2b05da6d3971ce11c5ba92ef1e3f21439a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:37 +0000
Subject: [PATCH 40/54] fix: make_sin_cos returns one observed precision per
 time point

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 0e2c9a3..2e4e119 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -536,6 +536,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
 
     thetas = np.array([np.eye(n_dim_obs) for i in range(T)])
 
+    thetas_obs = []
     x = np.linspace(0, 2 * np.pi, T)
     for i in range(T):
         for r in range(n_dim_obs):
@@ -552,7 +553,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         assert is_pos_def(thetas[i])
         theta_observed = thetas[i] - L
         assert is_pos_def(theta_observed)
-        thetas_obs = [theta_observed]
+        thetas_obs.append(theta_observed)
 
     return thetas, thetas_obs, np.array([L] * T)
 
-- 
2.43.0


From 46993eb072aa7a1845c7b8bbb7971b107a896a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:39 +0000
Subject: [PATCH 41/54] fix: Ising samplers do not modify the input graph

---
 regain/datasets/ising.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..ed29719 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -150,6 +150,7 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
 
+    theta = np.array(theta)
     np.fill_diagonal(theta, 0)
 
     states = [list(seq) for seq in itertools.product(responses, repeat=10)]
@@ -300,6 +301,7 @@ def ising_sampler(
     assert np.all(theta == theta.T), "The input graph must be symmetric"
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
+    theta = np.array(theta)
     np.fill_diagonal(theta, 0)
     minimum = -sys.maxsize - 1
     p = theta.shape[0]
-- 
2.43.0


From 03c392708cea1a1c940bb6102595d5040dcc6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:42 +0000
Subject: [PATCH 42/54] fix: direct_sampling enumerates the states of all the
 variables

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index ed29719..1045965 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -153,7 +153,7 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
     theta = np.array(theta)
     np.fill_diagonal(theta, 0)
 
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
     ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
-- 
2.43.0


From 3f688601b5c2b1121361a9e744eb2e2f1d79f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 43/54] fix: Ising datasets use the requested responses

---
 regain/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/base.py b/regain/datasets/base.py
index c52af4b..3530bce 100644
--- a/regain/datasets/base.py
+++ b/regain/datasets/base.py
@@ -126,7 +126,7 @@ def _ising_case(
     n_samples=100, n_dim_obs=100, T=10, time_on_axis="first", update_theta="l2", responses=[-1, 1], **kwargs
 ):
     thetas = ising_theta_generator(n_dim_obs=n_dim_obs, n=n_samples, T=T, mode=update_theta, **kwargs)
-    samples = [ising_sampler(t, np.zeros(n_dim_obs), n=n_samples, responses=[-1, 1]) for t in thetas]
+    samples = [ising_sampler(t, np.zeros(n_dim_obs), n=n_samples, responses=responses) for t in thetas]
     data = np.array(samples)
     X = np.vstack(data)
     y = np.repeat(range(len(thetas)), n_samples).astype(int)
-- 
2.43.0


From 88392d8517a149f041b69d690d3fc3a0dde725e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:47 +0000
Subject: [PATCH 44/54] fix: load_finance returns the data it reads

---
 regain/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/data/base.py b/regain/data/base.py
index c1f4d71..e7d6cdc 100644
--- a/regain/data/base.py
+++ b/regain/data/base.py
@@ -42,3 +42,5 @@ def load_finance(condensed=True, sectors=False):
     if sectors:
         filename = os.path.join(os.path.dirname(__file__), "finance/industries_sector.csv")
         sectors = pd.read_csv(filename, index_col=0)
+        return data, sectors
+    return data
-- 
2.43.0


From b9553eb20a9a61f9de176ebc691abc1292ea4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:49 +0000
Subject: [PATCH 45/54] fix: WishartProcess stores its parameters as given

---
 regain/bayesian/wishart_process_.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..f60ca87 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -239,7 +239,7 @@ class WishartProcess(TimeGraphicalLasso):
         learn_ell=True,
     ):
         self.n_iter = n_iter
-        self.burn_in = n_iter // 4 if burn_in is None else burn_in
+        self.burn_in = burn_in
         self.verbose = verbose
         self.assume_centered = assume_centered
 
@@ -255,6 +255,10 @@ class WishartProcess(TimeGraphicalLasso):
         self.kernel = kernel
         self.learn_ell = learn_ell
 
+        self.mu_prior = mu_prior
+        self.var_prior = var_prior
+        self.mu_Lprior = mu_Lprior
+        self.var_Lprior = var_Lprior
         mu_prior, sigma_prior = lognstat(mu_prior, var_prior)
         self.prior_theta_kernel = stats.lognorm(
             loc=0, s=sigma_prior, scale=np.exp(mu_prior)
@@ -333,9 +337,10 @@ class WishartProcess(TimeGraphicalLasso):
             samples_u, loglikes, lps = out
 
         # Burn in
-        self.lps_after_burnin = lps[self.burn_in:]
-        self.samples_u_after_burnin = samples_u[self.burn_in:]
-        self.loglikes_after_burnin = loglikes[self.burn_in:]
+        burn_in = self.n_iter // 4 if self.burn_in is None else self.burn_in
+        self.lps_after_burnin = lps[burn_in:]
+        self.samples_u_after_burnin = samples_u[burn_in:]
+        self.loglikes_after_burnin = loglikes[burn_in:]
 
         # % Select the best hyperparameters based on the loglikes_after_burnin
         pos = np.argmax(self.loglikes_after_burnin)
@@ -343,7 +348,7 @@ class WishartProcess(TimeGraphicalLasso):
         self.u_map = self.samples_u_after_burnin[pos]
 
         if self.learn_ell:
-            self.Ls_after_burnin = Ls[self.burn_in:]
+            self.Ls_after_burnin = Ls[burn_in:]
             self.Lmap = self.Ls_after_burnin[pos]
         else:
             self.Lmap = L
-- 
2.43.0


From 20be9ae4b628c0b44f47caadd6cedca61713b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:52 +0000
Subject: [PATCH 46/54] fix: Wishart process sampler stores each sampled L

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index f60ca87..f3c8e99 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From 6ead3676bbc6ed1d9a05b084bba31e0720e8b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:54 +0000
Subject: [PATCH 47/54] fix: BayesianGraphicalLasso does not overwrite alphas
 during fit

---
 regain/bayesian/gwishart_inference.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..494d585 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -492,13 +492,14 @@ class BayesianGraphicalLasso(GraphicalLasso):
         # Covariance does not make sense for a single feature
         X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
 
-        if self.alphas is None:
-            self.alphas = np.logspace(-2, 0, 20)
+        alphas = self.alphas
+        if alphas is None:
+            alphas = np.logspace(-2, 0, 20)
 
         self.precision_ = bayesian_graphical_lasso(
             X,
             tol=self.tol,
-            alphas=self.alphas,
+            alphas=alphas,
             n_resampling=self.n_resampling,
             mode=self.mode,
             scoring=self.scoring,
-- 
2.43.0


From 79e0337351e84cfa827ba7a4bc8dcb47a051e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:56 +0000
Subject: [PATCH 48/54] fix: compute_score rejects unknown score methods

---
 regain/bayesian/gwishart_inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 494d585..60dcb60 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -315,6 +315,8 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
             - n_samples * n_dim * np.log(2 * np.pi) / 2
         )
         GWpost.lognormconst = lognormconst
+    else:
+        raise ValueError("Unknown score method %s" % score_method)
 
     GWpost.score = score
     return GWpost
-- 
2.43.0


From f2ee8a5239a7e739b85637c79d6784788c77ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:59 +0000
Subject: [PATCH 49/54] fix: importing model_selection does not silence all
 warnings

---
 regain/model_selection/stability_optimization.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 096dcf0..c6573b4 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -48,8 +48,6 @@ from sklearn.model_selection._validation import _aggregate_score_dicts, _fit_and
 from sklearn.utils._joblib import Parallel, delayed
 from sklearn.utils.validation import indexable
 
-warnings.simplefilter("ignore")
-
 
 def global_instability(estimators):
     """Computes instability of the graphs inferred from estimators.
-- 
2.43.0


From bc26450329acc7cf0ac97d59ac34513b0c60c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:02 +0000
Subject: [PATCH 50/54] fix: remove leftover debugging output from stability
 selection

---
 regain/model_selection/stability_optimization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index c6573b4..ada4b2c 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -460,7 +460,6 @@ class GraphicalModelStabilitySelection(GridSearchCV):
                     raise IndexError("best_index_ index out of range")
             else:
                 self.best_index_ = results["rank_test_%s" % refit_metric].argmin()
-                print(self.best_index_)
                 self.best_score_ = results["mean_test_%s" % refit_metric][
                     self.best_index_
                 ]
-- 
2.43.0


From 21b300d753e9136b1faeb1b36e0bb10d94670c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:14 +0000
Subject: [PATCH 51/54] fix: sample_ell does not overwrite the caller's vector
 of elements

---
 regain/bayesian/sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/bayesian/sampling.py b/regain/bayesian/sampling.py
index 5650d05..98be0f7 100644
--- a/regain/bayesian/sampling.py
+++ b/regain/bayesian/sampling.py
@@ -200,6 +200,7 @@ def sample_ell(Ltau, var_proposal, umat, prior_distr, likelihood=None):
     Use a spherical normal distribution as the proposal.
     """
     # Run the MH individually per component of L
+    Ltau = Ltau.copy()  # components are updated one at a time, keep the caller's array
     free_elements = Ltau.size
     L_proposal = np.zeros(free_elements)
 
-- 
2.43.0


From a7a5c828781a2e322520159adad6f203cef62fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:08 +0000
Subject: [PATCH 52/54] fix: kernel parameter search prints its progress only
 when verbose

---
 regain/covariance/kernel_time_graphical_lasso_.py   | 2 +-
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 05c9dd6..be4bdb5 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -490,7 +490,7 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
 
                 if i > 0 and abs(theta_old - theta) < 1e-5:
                     break
-                else:
+                elif self.verbose:
                     print("Find new theta: %f" % theta)
 
                 # M step
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 0a01fae..56bf37e 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -455,7 +455,7 @@ class TemporalIsingModel(BaseEstimator):
 
                 if i > 0 and abs(theta_old - theta) < 1e-5:
                     break
-                else:
+                elif self.verbose:
                     print("Find new theta: %f" % theta)
 
                 # M step
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 3b710ac..41f77ee 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -450,7 +450,7 @@ class TemporalPoissonModel(BaseEstimator):
 
                 if i > 0 and abs(theta_old - theta) < 1e-5:
                     break
-                else:
+                elif self.verbose:
                     print("Find new theta: %f" % theta)
 
                 # M step
-- 
2.43.0


From 312ad1a004f064371b3e9008f76a76b3c9ee2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:05 +0000
Subject: [PATCH 53/54] fix: an unconverged kernel parameter search warns
 instead of printing

---
 regain/covariance/kernel_time_graphical_lasso_.py   | 2 +-
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index be4bdb5..60c75c9 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -529,7 +529,7 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                     self.precision_, self.covariance_, self.n_iter_ = out
                 theta_old = theta
             else:
-                print("warning: theta not converged")
+                warnings.warn("theta not converged")
 
         else:
             if callable(self.kernel):
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 56bf37e..d25938f 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -487,7 +487,7 @@ class TemporalIsingModel(BaseEstimator):
                     self.precision_, self.n_iter_ = out
                 theta_old = theta
             else:
-                print("warning: theta not converged")
+                warnings.warn("theta not converged")
 
         else:
             if callable(self.kernel):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 41f77ee..91b5b3b 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -483,7 +483,7 @@ class TemporalPoissonModel(BaseEstimator):
                     self.precision_, self.n_iter_ = out
                 theta_old = theta
             else:
-                print("warning: theta not converged")
+                warnings.warn("theta not converged")
 
         else:
             if callable(self.kernel):
-- 
2.43.0


From c3470810a1628539039d4c6787690884cf16596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:14 +0000
Subject: [PATCH 54/54] fix: monotonised instability of a candidate includes
 the candidate itself

---
 regain/model_selection/stability_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index ada4b2c..cdf4b5e 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -596,7 +596,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         # from high sparsity to low
 
         monotonized_instabilities = [array_means[0]] + [
-            np.max(array_means[:i]) for i in range(1, array_means.size)
+            np.max(array_means[: i + 1]) for i in range(1, array_means.size)
         ]
         monotonized_instabilities = np.array(monotonized_instabilities)
         self.monotonized_instabilities = np.copy(monotonized_instabilities)
@@ -609,7 +609,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
 
             upper_bounds = np.array([upper_bound(e_split) for e_split in estimators])
             upper_bounds = [upper_bounds[0]] + [
-                np.max(upper_bounds[:i]) for i in range(1, upper_bounds.size)
+                np.max(upper_bounds[: i + 1]) for i in range(1, upper_bounds.size)
             ]
             self.upper_bounds = np.array(upper_bounds)
             lb = np.where(np.array(monotonized_instabilities) <= 0.05)[0]
-- 
2.43.0

