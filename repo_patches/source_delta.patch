From 14c7ae9a248b28915c58b5a5bc0819687b9cb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 01/66] fix: accept an ndarray as starting point of the solvers
 (init=ndarray raised ValueError)

---
 regain/covariance/graphical_lasso_.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..91f29b1 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,10 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, np.ndarray):
+        # never work on the caller's array
+        K = mode.copy()
+    elif mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
@@ -70,8 +73,6 @@ def init_precision(emp_cov, mode="empirical"):
             for i, (c, e) in enumerate(zip(covariance_, emp_cov)):
                 c.flat[:: n_features + 1] = e.flat[:: n_features + 1]
                 K[i] = linalg.pinvh(c)
-    elif isinstance(mode, np.ndarray):
-        K = mode
     else:
         K = np.zeros_like(emp_cov)
 
-- 
2.43.0


From 662fb2fc568df9eee1887f8028e3cce1eff1b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 02/66] fix: sign of the over-relaxation step in
 graphical_lasso (over_relax != 1 did not converge)

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 91f29b1..c2d7e77 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -160,7 +160,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From 1c4c99b0776460d9094ac72ed4589072d85b7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 03/66] fix: accept kernel matrices (ndarray kernels raised
 ValueError: ambiguous truth value)

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 2 +-
 regain/generalized_linear_model/glm_time_ising.py        | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..4f6e1a3 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = np.identity(self.classes_.size) if self.kernel_phi is None else self.kernel_phi
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +553,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = np.identity(self.classes_.size) if self.kernel_psi is None else self.kernel_psi
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..953bcae 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,7 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..e61b7af 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,7 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..9ea541d 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -497,7 +497,7 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From d96fb2f37a54f5a959898cf65fca6b4da16b2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:38 +0000
Subject: [PATCH 04/66] fix: do not overwrite the n_clusters parameter in fit
 (a second fit used the first fit's number of times)

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 5 ++---
 regain/covariance/kernel_time_graphical_lasso_.py        | 5 ++---
 regain/generalized_linear_model/glm_time_ising.py        | 5 ++---
 regain/generalized_linear_model/glm_time_poisson.py      | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 4f6e1a3..c740d70 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -750,8 +750,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
             kernel_psi = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = None
             for i in range(self.max_iter_ext):
                 # E step - discover best kernel
@@ -764,7 +763,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 # kernel_psi = theta * self.beta
                 kernel_psi = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel_psi)
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 953bcae..4c6c8e8 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -697,8 +697,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
 
             labels_pred_old = None
             for i in range(self.max_iter_ext):
@@ -721,7 +720,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 kernel = theta
 
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e61b7af..96b13ad 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -703,8 +703,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 out = _fit_time_ising_model(
@@ -728,7 +727,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 9ea541d..2ffd76b 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -699,14 +699,13 @@ class SimilarityTemporalPoissonModel(TemporalPoissonModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
-- 
2.43.0


From a64967f894cdc5446293206700a8317bed3f3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:38 +0000
Subject: [PATCH 05/66] fix: do not overwrite alpha='max' in fit (a second fit
 used the first fit's alpha)

---
 regain/forward_backward/time_graphical_lasso_.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..a790422 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -522,13 +522,14 @@ class TimeGraphicalLassoForwardBackward(TimeGraphicalLasso):
             Empirical covariance of data.
 
         """
-        if self.alpha == "max":
-            self.alpha = max(alpha_max(e) for e in emp_cov)
+        alpha = self.alpha
+        if isinstance(alpha, str) and alpha == "max":
+            alpha = max(alpha_max(e) for e in emp_cov)
 
         out = tgl_forward_backward(
             emp_cov,
             n_samples=n_samples,
-            alpha=self.alpha,
+            alpha=alpha,
             beta=self.beta,
             tol=self.tol,
             max_iter=self.max_iter,
-- 
2.43.0


From 971d1f4552d7429d9b6eed26d9a0c18a3708c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:38 +0000
Subject: [PATCH 06/66] fix: choose='lamda' and choose='both' raised TypeError
 in the forward-backward solver

---
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index a790422..f221e5e 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From e7ad13e78a0a5c0706a8cb26e8274a9c84a7b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:03 +0000
Subject: [PATCH 07/66] fix: overlapping groups of different lengths raised
 ValueError (admm objective and paspal)

---
 regain/linear_model/group_lasso_overlap_.py | 2 +-
 regain/wrapper/paspal/glopridu.py           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..d16dd91 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -561,4 +561,4 @@ def _overlapping_group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, m
 
 def objective(A, b, alpha, x, z):
     """Group lasso with overlap objective function."""
-    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * np.linalg.norm(x)
+    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * sum(np.linalg.norm(xi) for xi in x)
diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index 8f27ff0..cfcda37 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -32,7 +32,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     weights = (weights * tau) ** 2
 
     # if lamda is not initialized, then initialize it to 0
-    if not lamda0:
+    if lamda0 is None:
         lamda0 = np.zeros(B)
 
     lamda_tot = np.zeros(B)
@@ -167,7 +167,10 @@ def glopridu_algorithm(
 ):
     """Add Doc."""
     n, d = X.shape
-    blocks = np.array(blocks)
+    # blocks can have different lengths: keep them in an array of arrays
+    groups, blocks = blocks, np.empty(len(blocks), dtype=object)
+    for i, group in enumerate(groups):
+        blocks[i] = np.asarray(group)
 
     # if only the number of blocks is given, build blocks of equal
     # cardinality with sequential features
-- 
2.43.0


From e1d50b977fedde696d24927c87dc0884c5fb7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:03 +0000
Subject: [PATCH 08/66] fix: non-finite loss raised AttributeError (np.float
 was removed from numpy)

---
 regain/generalized_linear_model/glm_ising.py   | 2 +-
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..58dc898 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..8eaed59 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From 67ff239f2e10684bcb058fa1759140a51d851bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:03 +0000
Subject: [PATCH 09/66] fix: SimilarityTemporalIsingModel.fit advanced the
 global random stream for values it never used

---
 regain/generalized_linear_model/glm_time_ising.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 96b13ad..39d3823 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -696,10 +696,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             # from scipy.optimize import minimize
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
-            self.precision_ = np.random.rand(
-                self.classes_.shape[0], X.shape[1], X.shape[1]
-            )
-            n_times = self.precision_.shape[0]
+            n_times = self.classes_.shape[0]
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-- 
2.43.0


From ce1241dadedceb66529e5cd97af588ed5f29b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:04 +0000
Subject: [PATCH 10/66] fix: init_logger raised AttributeError when the root
 logger had a filter

---
 regain/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..81d9e79 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -152,8 +152,6 @@ def init_logger(filename, verbose=True):
         _.close()
     for _ in list(root_logger.filters):
         root_logger.removeFilter(_)
-        _.flush()
-        _.close()
 
     logging.basicConfig(
         filename=logfile,
-- 
2.43.0


From 9d5dd81bbd5fcfcc529718349c96096f60d20d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:04 +0000
Subject: [PATCH 11/66] fix: write_network wrote a header line that
 read_network cannot parse

---
 regain/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index 81d9e79..f1244e7 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -185,7 +185,7 @@ def load_pickle(filename):
 
 def write_network(dataframe, filename):
     """Write a network as a list of interactions."""
-    dataframe.stack().to_csv(filename)
+    dataframe.stack().to_csv(filename, header=False)
 
 
 def read_network(
-- 
2.43.0


From aade684de1e8aa3ca536884ffcb97b3a97c4353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:09 +0000
Subject: [PATCH 12/66] fix: every stored sample of L was the same array (the
 MAP estimate used the last L of the chain)

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..5b04312 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From a8881ed4dfe7c3b4eddc1a1c05acb2f2120c0480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 13/66] fix: WishartProcess.fit swallowed KeyboardInterrupt in
 the Cholesky fallback

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 5b04312..cdd2ff3 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -308,7 +308,7 @@ class WishartProcess(TimeGraphicalLasso):
             cov = empirical_covariance(X)
             try:
                 L = np.linalg.cholesky(cov)
-            except:
+            except np.linalg.LinAlgError:
                 np.fill_diagonal(cov, np.sum(np.abs(cov), axis=0) + 0.01)
                 L = np.linalg.cholesky(cov)
 
-- 
2.43.0


From a38fcccbbef39e8a94d5d0bcd0ee4d90e459b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 14/66] fix: WishartProcess could not be cloned, and parameters
 set after construction were ignored

---
 regain/bayesian/wishart_process_.py | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index cdd2ff3..ac4bf2b 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -239,28 +239,22 @@ class WishartProcess(TimeGraphicalLasso):
         learn_ell=True,
     ):
         self.n_iter = n_iter
-        self.burn_in = n_iter // 4 if burn_in is None else burn_in
+        self.burn_in = burn_in
         self.verbose = verbose
         self.assume_centered = assume_centered
 
         # parameter initialisation
         self.theta = theta  # Inverse width
         self.var_prop = var_prop
-        # self.mu_prior = mu_prior
-        # self.var_prior = var_prior
+        self.mu_prior = mu_prior
+        self.var_prior = var_prior
 
         self.var_Lprop = var_Lprop
-        # self.mu_Lprior = mu_Lprior
-        # self.var_Lprior = var_Lprior
+        self.mu_Lprior = mu_Lprior
+        self.var_Lprior = var_Lprior
         self.kernel = kernel
         self.learn_ell = learn_ell
 
-        mu_prior, sigma_prior = lognstat(mu_prior, var_prior)
-        self.prior_theta_kernel = stats.lognorm(
-            loc=0, s=sigma_prior, scale=np.exp(mu_prior)
-        )
-        self.prior_ell = stats.norm(loc=mu_Lprior, scale=np.sqrt(var_Lprior))
-
     def fit(self, X, y):
         """Fit the WishartProcess model to X.
 
@@ -301,6 +295,14 @@ class WishartProcess(TimeGraphicalLasso):
         else:
             kern = _periodic_kernel
 
+        mu_prior, sigma_prior = lognstat(self.mu_prior, self.var_prior)
+        self.prior_theta_kernel = stats.lognorm(
+            loc=0, s=sigma_prior, scale=np.exp(mu_prior)
+        )
+        self.prior_ell = stats.norm(
+            loc=self.mu_Lprior, scale=np.sqrt(self.var_Lprior)
+        )
+
         self.likelihood = partial(t_mvn_logpdf, X_center)
         self.nu_ = 1
         L = None
@@ -333,9 +335,10 @@ class WishartProcess(TimeGraphicalLasso):
             samples_u, loglikes, lps = out
 
         # Burn in
-        self.lps_after_burnin = lps[self.burn_in:]
-        self.samples_u_after_burnin = samples_u[self.burn_in:]
-        self.loglikes_after_burnin = loglikes[self.burn_in:]
+        burn_in = self.n_iter // 4 if self.burn_in is None else self.burn_in
+        self.lps_after_burnin = lps[burn_in:]
+        self.samples_u_after_burnin = samples_u[burn_in:]
+        self.loglikes_after_burnin = loglikes[burn_in:]
 
         # % Select the best hyperparameters based on the loglikes_after_burnin
         pos = np.argmax(self.loglikes_after_burnin)
@@ -343,7 +346,7 @@ class WishartProcess(TimeGraphicalLasso):
         self.u_map = self.samples_u_after_burnin[pos]
 
         if self.learn_ell:
-            self.Ls_after_burnin = Ls[self.burn_in:]
+            self.Ls_after_burnin = Ls[burn_in:]
             self.Lmap = self.Ls_after_burnin[pos]
         else:
             self.Lmap = L
-- 
2.43.0


From 5f6ac9cfca8f4d435738f13d917297ec4e346b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:49 +0000
Subject: [PATCH 15/66] fix: a failed or interrupted save destroyed the file it
 was replacing

---
 regain/utils.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index f1244e7..fee6e0a 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -35,6 +35,7 @@ import functools
 import logging
 import os
 import sys
+import threading
 import warnings
 from contextlib import contextmanager
 from dataclasses import dataclass
@@ -169,10 +170,26 @@ def init_logger(filename, verbose=True):
     return logfile
 
 
+@contextmanager
+def _replacing(filename, mode):
+    """Open a file that takes the place of `filename` only once complete."""
+    partial = "%s.%d-%d.part" % (filename, os.getpid(), threading.get_ident())
+    try:
+        with open(partial, mode) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(partial, filename)
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
+
+
 def save_pickle(obj, filename):
     """Save pickle utility."""
     filename = _ensure_filename_ending(filename, ".pkl")
-    with open(filename, "wb") as f:
+    with _replacing(filename, "wb") as f:
         pkl.dump(obj, f)
 
 
@@ -185,7 +202,8 @@ def load_pickle(filename):
 
 def write_network(dataframe, filename):
     """Write a network as a list of interactions."""
-    dataframe.stack().to_csv(filename, header=False)
+    with _replacing(filename, "w") as f:
+        dataframe.stack().to_csv(f, header=False)
 
 
 def read_network(
-- 
2.43.0


From c85c08cdd7254acc045950f3949b719b9a34fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 16/66] fix: a rejected draw of edges was applied all the same
 (extra edges and self-loops in ising and poisson graphs)

---
 regain/datasets/ising.py   | 6 +++---
 regain/datasets/poisson.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..006de4c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -44,9 +44,9 @@ def update_ising_l1(theta_init, no, n_dim_obs, responses=[-1, 1]):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, no)
         cols = np.random.randint(0, n_dim_obs, no)
-        for r, c in zip(rows, cols):
-            theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
-            theta[c, r] = theta[r, c]
+    for r, c in zip(rows, cols):
+        theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
+        theta[c, r] = theta[r, c]
     assert np.all(theta == theta.T)
     return theta
 
diff --git a/regain/datasets/poisson.py b/regain/datasets/poisson.py
index be405e7..9f867ae 100644
--- a/regain/datasets/poisson.py
+++ b/regain/datasets/poisson.py
@@ -41,9 +41,9 @@ def update_l1(G, how_many, n_dim_obs):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, how_many)
         cols = np.random.randint(0, n_dim_obs, how_many)
-        for r, c in zip(rows, cols):
-            G[r, c] = np.random.choice([0, G[r, c]])
-            G[c, r] = G[r, c]
+    for r, c in zip(rows, cols):
+        G[r, c] = np.random.choice([0, G[r, c]])
+        G[c, r] = G[r, c]
     assert np.all(G == G.T)
     return G
 
-- 
2.43.0


From 0839ec6c2442abf0e7dca156879153a8b8d9713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 17/66] fix: the ising samplers zeroed the diagonal of the
 caller's matrix

---
 regain/datasets/ising.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 006de4c..1f73355 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -150,6 +150,7 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
 
+    theta = theta.copy()
     np.fill_diagonal(theta, 0)
 
     states = [list(seq) for seq in itertools.product(responses, repeat=10)]
@@ -300,6 +301,7 @@ def ising_sampler(
     assert np.all(theta == theta.T), "The input graph must be symmetric"
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
+    theta = theta.copy()
     np.fill_diagonal(theta, 0)
     minimum = -sys.maxsize - 1
     p = theta.shape[0]
-- 
2.43.0


From 1820a4623f9252b14720562e61a91e30606def12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 18/66] fix: direct ising sampling always drew 10-dimensional
 states, without replacement

---
 regain/datasets/ising.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 1f73355..4410264 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -153,11 +153,11 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
     theta = theta.copy()
     np.fill_diagonal(theta, 0)
 
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
-    ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
-    return [states[i] for i in ixs]
+    ixs = np.random.choice(np.arange(0, len(states)), n, replace=True, p=probabilities)
+    return np.array([states[i] for i in ixs])
 
 
 def p_plus_minmax(i, theta, state, thresholds, beta, responses):
-- 
2.43.0


From 8a6d25a051afb35cc3d75d822533aea5518349fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:28 +0000
Subject: [PATCH 19/66] fix: GraphicalModelStabilitySelection could not be
 created or fitted with the supported scikit-learn

---
 .../model_selection/stability_optimization.py | 42 +++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 096dcf0..54ac97c 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -41,6 +41,7 @@ from numpy.ma import MaskedArray
 from scipy.special import binom
 from scipy.stats import rankdata
 from sklearn.base import clone, is_classifier
+from sklearn.metrics import check_scoring
 from sklearn.metrics._scorer import _check_multimetric_scoring
 from sklearn.model_selection import GridSearchCV, StratifiedShuffleSplit
 from sklearn.model_selection._split import check_cv
@@ -280,7 +281,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         cv="warn",
         verbose=0,
         pre_dispatch="2*n_jobs",
-        error_score="raise-deprecating",
+        error_score="raise",
         mode="stars",
         return_train_score=False,
         n_repetitions=10,
@@ -290,7 +291,6 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             estimator=estimator,
             scoring=scoring,
             n_jobs=n_jobs,
-            iid=iid,
             refit=refit,
             cv=StratifiedShuffleSplit(train_size=sampling_size, n_splits=n_repetitions),
             verbose=verbose,
@@ -299,6 +299,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             return_train_score=return_train_score,
             param_grid=param_grid,
         )
+        self.iid = iid
         self.mode = mode
         self.n_repetitions = n_repetitions
         self.sampling_size = sampling_size
@@ -343,9 +344,11 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             y = np.ones(X.shape[0])
         cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
 
-        scorers, self.multimetric_ = _check_multimetric_scoring(
-            self.estimator, scoring=self.scoring
-        )
+        self.multimetric_ = isinstance(self.scoring, (list, tuple, set, dict))
+        if self.multimetric_:
+            scorers = _check_multimetric_scoring(self.estimator, scoring=self.scoring)
+        else:
+            scorers = {"score": check_scoring(self.estimator, scoring=self.scoring)}
 
         if self.multimetric_:
             if (
@@ -462,7 +465,6 @@ class GraphicalModelStabilitySelection(GridSearchCV):
                     raise IndexError("best_index_ index out of range")
             else:
                 self.best_index_ = results["rank_test_%s" % refit_metric].argmin()
-                print(self.best_index_)
                 self.best_score_ = results["mean_test_%s" % refit_metric][
                     self.best_index_
                 ]
@@ -490,26 +492,14 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         n_candidates = len(candidate_params)
 
         # if one choose to see train score, "out" will contain train score info
+        test_score_dicts = [result["test_scores"] for result in out]
+        test_sample_counts = [result["n_test_samples"] for result in out]
+        fit_time = [result["fit_time"] for result in out]
+        score_time = [result["score_time"] for result in out]
+        estimators = [result["estimator"] for result in out]
         if self.return_train_score:
-            (
-                train_score_dicts,
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
-        else:
-            (
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
-
-        # test_score_dicts and train_score dicts are lists of dictionaries and
-        # we make them into dict of lists
+            train_score_dicts = [result["train_scores"] for result in out]
+
         test_scores = _aggregate_score_dicts(test_score_dicts)
         if self.return_train_score:
             train_scores = _aggregate_score_dicts(train_score_dicts)
@@ -568,7 +558,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         results["params"] = candidate_params
 
         # NOTE test_sample counts (weights) remain the same for all candidates
-        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=np.int)
+        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=int)
 
         if self.iid != "deprecated":
             warnings.warn(
-- 
2.43.0


From 21caed6f6fadefe54bc36dc294e5e4a592afa096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:25 +0000
Subject: [PATCH 20/66] fix: monotonised instabilities ignored each candidate's
 own instability (an unstable candidate could be selected)

---
 regain/model_selection/stability_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 54ac97c..92b689a 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -589,7 +589,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         # from high sparsity to low
 
         monotonized_instabilities = [array_means[0]] + [
-            np.max(array_means[:i]) for i in range(1, array_means.size)
+            np.max(array_means[: i + 1]) for i in range(1, array_means.size)
         ]
         monotonized_instabilities = np.array(monotonized_instabilities)
         self.monotonized_instabilities = np.copy(monotonized_instabilities)
@@ -602,7 +602,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
 
             upper_bounds = np.array([upper_bound(e_split) for e_split in estimators])
             upper_bounds = [upper_bounds[0]] + [
-                np.max(upper_bounds[:i]) for i in range(1, upper_bounds.size)
+                np.max(upper_bounds[: i + 1]) for i in range(1, upper_bounds.size)
             ]
             self.upper_bounds = np.array(upper_bounds)
             lb = np.where(np.array(monotonized_instabilities) <= 0.05)[0]
-- 
2.43.0


From beb883f7c76a95b2693a09104396a9ae41ec248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:25 +0000
Subject: [PATCH 21/66] fix: stability selection overwrote its sampling_size
 and cv parameters in fit (a second fit reused the first fit's size)

---
 .../model_selection/stability_optimization.py | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 92b689a..0602d54 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -323,26 +323,27 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         """
         estimator = self.estimator
 
-        if self.sampling_size is None:
-            self.sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
-            self.cv = StratifiedShuffleSplit(
-                train_size=self.sampling_size, n_splits=self.n_repetitions
+        sampling_size, cv = self.sampling_size, self.cv
+        if sampling_size is None:
+            sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
+            cv = StratifiedShuffleSplit(
+                train_size=sampling_size, n_splits=self.n_repetitions
             )
         if y is not None:
             n_classes = np.unique(y).shape[0]
-            if self.sampling_size % n_classes != 0:
+            if sampling_size % n_classes != 0:
                 warnings.warn(
                     "Changing sampling size, divisible for the " "number of classes."
                 )
-                self.sampling_size = (self.sampling_size // n_classes) * n_classes
-                self.cv = StratifiedShuffleSplit(
+                sampling_size = (sampling_size // n_classes) * n_classes
+                cv = StratifiedShuffleSplit(
                     n_splits=self.n_repetitions,
-                    train_size=self.sampling_size,
-                    test_size=X.shape[0] - self.sampling_size,
+                    train_size=sampling_size,
+                    test_size=X.shape[0] - sampling_size,
                 )
         else:
             y = np.ones(X.shape[0])
-        cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
+        cv = check_cv(cv, y, classifier=is_classifier(estimator))
 
         self.multimetric_ = isinstance(self.scoring, (list, tuple, set, dict))
         if self.multimetric_:
-- 
2.43.0


From d9d7cc20c91008013019b6eab1a29f01570183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:25 +0000
Subject: [PATCH 22/66] fix: importing the model selection module silenced
 every warning of the process

---
 regain/model_selection/stability_optimization.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 0602d54..86c218f 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -49,8 +49,6 @@ from sklearn.model_selection._validation import _aggregate_score_dicts, _fit_and
 from sklearn.utils._joblib import Parallel, delayed
 from sklearn.utils.validation import indexable
 
-warnings.simplefilter("ignore")
-
 
 def global_instability(estimators):
     """Computes instability of the graphs inferred from estimators.
-- 
2.43.0


From 9af517e6433f17969681cc9dd6a8dbbc82c5232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:24 +0000
Subject: [PATCH 23/66] fix: rotations_ and scalings_ of DiscriminantAnalysis
 were missing after fit, or those of an earlier fit, until the first
 prediction

---
 regain/discriminant_analysis.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index e840324..b1f35be 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -139,6 +139,11 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
             ensure_posdef(self.precision_, inplace=True)
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
         self.means_ = self.estimator.location_
+        self.rotations_, self.scalings_ = [], []
+        for p in self.covariance_:
+            R, S, Rt = np.linalg.svd(p, full_matrices=False)
+            self.rotations_.append(Rt.T)
+            self.scalings_.append(S)
         return self
 
     @deprecated("it will be removed in v0.2.0. Use `_decision_function` instead")
@@ -157,16 +162,6 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
         u = np.asarray([-fast_logdet(s) for s in precisions])
         return -0.5 * (norm2 + u) + np.log(self.priors_)
 
-    def _decision_function(self, X):
-        rotations, scalings = [], []
-        for p in self.covariance_:
-            R, S, Rt = np.linalg.svd(p, full_matrices=False)
-            rotations.append(Rt.T)
-            scalings.append(S)
-        self.rotations_ = rotations
-        self.scalings_ = scalings
-        return super(DiscriminantAnalysis, self)._decision_function(X)
-
     def score(self, X, y, sample_weight=None):
         """Returns the mean accuracy on the given test data and labels.
 
-- 
2.43.0


From 2611aa891a806a3c68a1bb5578abe661189a1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:29 +0000
Subject: [PATCH 24/66] fix: the Wishart process sampler swallowed any
 exception, out-of-memory errors included, while redrawing

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index ac4bf2b..6a28960 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -128,7 +128,7 @@ def fit(
                 try:
                     umat = sample_gp(K, nu=nu, p=p)
                     break
-                except Exception:
+                except np.linalg.LinAlgError:
                     K += 1e-8 * np.eye(K.shape[0])
 
             current_state["xx"] = umat
-- 
2.43.0


From b9408bab29e76e18a0d474b5ff4a72d26cf1b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:54 +0000
Subject: [PATCH 25/66] fix: sync the directory when a saved file takes its
 place

A completed save was lost when the machine crashed before the directory
entry reached the disk.
---
 regain/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regain/utils.py b/regain/utils.py
index fee6e0a..f3d149d 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -180,6 +180,13 @@ def _replacing(filename, mode):
             f.flush()
             os.fsync(f.fileno())
         os.replace(partial, filename)
+        if os.name == "posix":
+            # the new directory entry has to outlive a crash as well
+            directory = os.open(os.path.dirname(partial) or os.curdir, os.O_RDONLY)
+            try:
+                os.fsync(directory)
+            finally:
+                os.close(directory)
     except BaseException:
         if os.path.exists(partial):
             os.remove(partial)
-- 
2.43.0


From 3e297d5bcd2e87804791aafd4283b1da7139e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 26/66] fix: ensure_posdef left numerically singular matrices
 unchanged

The Cholesky test passes on singular matrices by rounding; make_sin then
returned singular precisions and samples of variance 1e16.
---
 regain/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index f3d149d..e3c4d96 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -641,7 +641,9 @@ def ensure_posdef(X, inplace=True):
     def _ensure_posdef_2d(X, inplace=True):
         if not inplace:
             raise NotImplementedError("Only inplace implemented")
-        if positive_definite(X):
+        # the Cholesky factorisation of a singular matrix may succeed by rounding
+        eigs = np.linalg.eigvalsh(X)
+        if eigs[0] > np.finfo(float).eps * X.shape[0] * eigs[-1]:
             return
         X.flat[:: X.shape[0] + 1] = np.abs(X - np.diag(np.diag(X))).sum(axis=1) + 0.1
 
-- 
2.43.0


From 6f1e345ada45a9344cd16f312d891b31c365e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 27/66] fix: make_fixed_sparsity changed the sparsity pattern

The diagonal vector, not the diagonal matrix, was subtracted, so every
zero entry counted as an edge and received noise.
---
 regain/datasets/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..3e33418 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -453,7 +453,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
 
     theta = np.abs(theta)
     theta_observed = theta - L
-    nonzeros = np.nonzero(theta - np.diag(theta))
+    nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
     thetas = [theta]
     thetas_obs = [theta_observed]
@@ -470,7 +470,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         theta.flat[:: n_dim_obs + 1] = (
             np.sum(np.abs(theta), axis=1) + np.sum(np.abs(L), axis=1) + 0.1
         )
-        nonzeros = np.nonzero(theta - np.diag(theta))
+        nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
         theta_observed = theta - L
         assert is_pos_def(theta_observed)
-- 
2.43.0


From 90ddc2b594ad9ac6853d2e63de8b0098adcc39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 28/66] fix: ising_sampler returned a vector for a single
 sample

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 4410264..4a2cd2c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -349,4 +349,4 @@ def ising_sampler(
     else:
         raise ValueError("The method could be either MH, CFTP or DIRECT")
 
-    return res
+    return np.atleast_2d(res)
-- 
2.43.0


From 96d1244c0b10e6d7915288f1dea8d0bf3919bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:55 +0000
Subject: [PATCH 29/66] fix: stability selection could not be cloned, and
 set_params(n_repetitions=, sampling_size=, param_grid=) was ignored

---
 regain/model_selection/stability_optimization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 86c218f..25d1ccc 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -43,7 +43,7 @@ from scipy.stats import rankdata
 from sklearn.base import clone, is_classifier
 from sklearn.metrics import check_scoring
 from sklearn.metrics._scorer import _check_multimetric_scoring
-from sklearn.model_selection import GridSearchCV, StratifiedShuffleSplit
+from sklearn.model_selection import GridSearchCV, ParameterGrid, StratifiedShuffleSplit
 from sklearn.model_selection._split import check_cv
 from sklearn.model_selection._validation import _aggregate_score_dicts, _fit_and_score
 from sklearn.utils._joblib import Parallel, delayed
@@ -290,7 +290,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             scoring=scoring,
             n_jobs=n_jobs,
             refit=refit,
-            cv=StratifiedShuffleSplit(train_size=sampling_size, n_splits=n_repetitions),
+            cv=cv,
             verbose=verbose,
             pre_dispatch=pre_dispatch,
             error_score=error_score,
@@ -301,7 +301,9 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         self.mode = mode
         self.n_repetitions = n_repetitions
         self.sampling_size = sampling_size
-        self.param_grid = _check_param_order(param_grid)
+
+    def _run_search(self, evaluate_candidates):
+        evaluate_candidates(ParameterGrid(_check_param_order(self.param_grid)))
 
     def fit(self, X, y=None, groups=None, **fit_params):
         """Run fit with all sets of parameters.
@@ -321,12 +323,12 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         """
         estimator = self.estimator
 
-        sampling_size, cv = self.sampling_size, self.cv
+        sampling_size = self.sampling_size
         if sampling_size is None:
             sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
-            cv = StratifiedShuffleSplit(
-                train_size=sampling_size, n_splits=self.n_repetitions
-            )
+        cv = StratifiedShuffleSplit(
+            train_size=sampling_size, n_splits=self.n_repetitions
+        )
         if y is not None:
             n_classes = np.unique(y).shape[0]
             if sampling_size % n_classes != 0:
-- 
2.43.0


From e4b7a51d68c03a65adb07cf5ac1c1dab56251b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:59 +0000
Subject: [PATCH 30/66] fix: stability selection merged a list of parameter
 grids into one grid, dropping candidates

---
 regain/model_selection/stability_optimization.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 25d1ccc..4b3568a 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -189,12 +189,9 @@ def _check_param_order(param_grid):
     if hasattr(param_grid, "items"):
         param_grid = [param_grid]
 
-    pg = []
-    for p in param_grid:
-        for name, v in p.items():
-            pg.append((name, np.sort(v)[::-1]))
-
-    return dict(pg)
+    return [
+        {name: np.sort(v)[::-1] for name, v in p.items()} for p in param_grid
+    ]
 
 
 class GraphicalModelStabilitySelection(GridSearchCV):
-- 
2.43.0


From 4833eac35d014065a6a250331d2ce686bf1c6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:01 +0000
Subject: [PATCH 31/66] fix: latent and time-varying solvers shrank the
 diagonal of the precision although their objective penalises off-diagonal
 entries only

---
 regain/covariance/infimal_convolution_.py                | 4 ++--
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_graphical_lasso_.py             | 4 ++--
 regain/covariance/latent_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_time_matrix_decomposition.py    | 4 ++--
 regain/covariance/time_graphical_lasso_.py               | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..0a51578 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -38,7 +38,7 @@ from six.moves import range
 from sklearn.utils.extmath import squared_norm
 
 from regain.norm import l1_od_norm
-from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -122,7 +122,7 @@ def infimal_convolution(
         R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c740d70..a7f4809 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -47,7 +47,7 @@ from regain.covariance.kernel_time_graphical_lasso_ import (
     objective as obj_ktgl,
     precision_similarity,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -198,7 +198,7 @@ def kernel_latent_time_graphical_lasso(
             A[m:] += Z_M[m][1] - Y_M[m][1]
 
         A /= n_times
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * n_times))
 
         # update W_0
         A = Z_0 - R - X_0
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 4c6c8e8..07bd0a8 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -48,7 +48,7 @@ from regain.covariance.time_graphical_lasso_ import (
     loss,
 )
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -190,7 +190,7 @@ def kernel_time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # update residuals
         U_0 += K - Z_0
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..a2178c2 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -40,7 +40,7 @@ from regain.covariance.graphical_lasso_ import (
     init_precision,
     objective as obj_gl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -132,7 +132,7 @@ def latent_graphical_lasso(
         R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..e454333 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -39,7 +39,7 @@ from regain.covariance.time_graphical_lasso_ import (
     init_precision,
     objective as obj_tgl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -184,7 +184,7 @@ def latent_time_graphical_lasso(
         A[:-1] += Z_1 - X_1
         A[1:] += Z_2 - X_2
         A /= divisor[:, None, None]
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..ff2dfa5 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -38,7 +38,7 @@ from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
 from regain.norm import l1_od_norm
-from regain.prox import prox_trace_indicator, soft_thresholding
+from regain.prox import prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_input, check_norm_prox
@@ -151,7 +151,7 @@ def latent_time_matrix_decomposition(
         A /= divisor[:, None, None]
         # soft_thresholding_ = partial(soft_thresholding, lamda=alpha / rho)
         # Z_0 = np.array(map(soft_thresholding_, A))
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index f5c3356..23010b1 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -45,7 +45,7 @@ from sklearn.utils.validation import check_X_y
 from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
 from regain.math import batch_logdet
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence, error_norm_time
 from regain.validation import check_norm_prox
@@ -201,7 +201,7 @@ def time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # other Zs
         A_1 = K[:-1] + U_1
-- 
2.43.0


From d0497a51f0339c7240385ff9375c4ba792d4f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:06 +0000
Subject: [PATCH 32/66] fix: overlapping group lasso (admm) did not minimise
 its documented objective: the local update ignored the consensus and
 thresholded entries instead of groups

---
 regain/linear_model/group_lasso_overlap_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index d16dd91..7a84fd8 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -144,7 +144,9 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     for k in range(max_iter):
         # x update
         for i, g in enumerate(groups):
-            x[i] = soft_thresholding(x[i] - y[i] / rho, lamda / rho)
+            v = z[g] - y[i] / rho
+            norm = np.linalg.norm(v)
+            x[i] = max(1 - lamda / (rho * norm), 0) * v if norm > 0 else v
 
         # z update
         zold = z
-- 
2.43.0


From 6fde2f4104fc008bec72a3318237d3652431e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:15 +0000
Subject: [PATCH 33/66] fix: missing graphical lasso recorded the
 log-likelihood function instead of its value in the history

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..d46e3a2 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
-- 
2.43.0


From ed64701ae25959f2fb9ae53408cdc205f72beb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:06 +0000
Subject: [PATCH 34/66] fix: the Ising gradient used the first sample only

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index 58dc898..6989cf4 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From 701b6b11189d27374ff3e95c4bb47072a0e80e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 35/66] fix: the objective recorded for psi='l2' and 'linf'
 used a matrix norm other than the penalty being minimised

---
 regain/validation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/regain/validation.py b/regain/validation.py
index 743836e..e10a105 100644
--- a/regain/validation.py
+++ b/regain/validation.py
@@ -41,6 +41,11 @@ from regain.norm import l1_norm, node_penalty
 from regain.prox import blockwise_soft_thresholding, prox_laplacian, prox_linf, prox_node_penalty, soft_thresholding
 
 
+def _columnwise_norm(a, ord):
+    """Sum of the vector norms of the columns, as penalised by the associated prox."""
+    return np.linalg.norm(a, ord=ord, axis=-2).sum()
+
+
 def check_norm_prox(function):
     """Validate function and return norm with associated prox."""
     if function == "laplacian":
@@ -51,10 +56,10 @@ def check_norm_prox(function):
         norm = l1_norm
     elif function == "l2":
         prox = blockwise_soft_thresholding
-        norm = np.linalg.norm
+        norm = partial(_columnwise_norm, ord=2)
     elif function == "linf":
         prox = prox_linf
-        norm = partial(np.linalg.norm, ord=np.inf)
+        norm = partial(_columnwise_norm, ord=np.inf)
     elif function == "node":
         prox = prox_node_penalty
         norm = node_penalty
-- 
2.43.0


From 8969f3e523beaa971795a54f04c84acdd5efb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:27 +0000
Subject: [PATCH 36/66] fix: the Gaussian and Poisson graphical models ignored
 max_iter (and the Gaussian one tol, gamma and verbose)

---
 regain/generalized_linear_model/glm_gaussian.py | 10 +++++++++-
 regain/generalized_linear_model/glm_poisson.py  |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..9d198b8 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,15 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X,
+                ix,
+                self.alpha,
+                gamma=gamma,
+                tol=self.tol,
+                max_iter=self.max_iter,
+                verbose=self.verbose,
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 8eaed59..a04101f 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -267,7 +267,12 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
-- 
2.43.0


From 22756a5bf9caa6e5347d5fd9572ea81540c922ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:30 +0000
Subject: [PATCH 37/66] fix: the 'union' reconstruction weighted the two
 neighbourhood estimates of an edge by the order of the variables

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From 9c6734688e0d0b3f535649bd0918facaa2620b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 38/66] fix: lamda_criterion='c' of the forward-backward solver
 raised TypeError

---
 regain/forward_backward/forward_backward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
-- 
2.43.0


From e276632d357293968af0834903a11f1fdadaf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 39/66] fix: KernelLatentTimeGraphicalLasso and its similarity
 variant ignored phi

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index a7f4809..a055a56 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -573,6 +573,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -789,6 +790,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -872,6 +874,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From 05611463aeac170238e1783a828bc14b22de051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:04 +0000
Subject: [PATCH 40/66] fix: SimilarityLatentTimeGraphicalLasso ignored the
 latent kernel it had built (eta), and failed with a callable kernel_phi

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index a055a56..113e380 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -742,6 +742,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 kernel_phi = np.eye(n_times)
                 np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                 np.fill_diagonal(kernel_phi[1:], self.eta)
+            else:
+                kernel_phi = self.kernel_phi
 
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
@@ -784,7 +786,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
-- 
2.43.0


From 72bfb6ddd8c5b77cb50ed195ab2db2333191afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:24 +0000
Subject: [PATCH 41/66] fix: the forward-backward line searches accepted
 indefinite iterates (two negative eigenvalues leave the determinant positive)
 and diverged

---
 regain/forward_backward/forward_backward.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index a49f369..54da76c 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -87,11 +87,12 @@ def choose_gamma(
 
         if choose == "gamma":
             y_minus_x = prox - x
-            loss_diff = function_f(K=x + lamda * y_minus_x) - fx
+            x1 = x + lamda * y_minus_x
+            loss_diff = function_f(K=x1) - fx
 
             tolerance = _scalar_product(y_minus_x, grad)
             tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
-            if loss_diff <= lamda * tolerance:
+            if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         gamma *= eps
 
@@ -147,7 +148,7 @@ def choose_lamda(
             norm_grad_diff = np.sqrt(_scalar_product(grad_diff, grad_diff))
             norm_iter_diff = np.sqrt(_scalar_product(iter_diff, iter_diff))
             tolerance = delta * norm_iter_diff / (gamma * lamda)
-            if norm_grad_diff <= tolerance:
+            if norm_grad_diff <= tolerance and positive_definite(x1):
                 break
         elif criterion == "b":
             loss_diff = function_f(K=x1) - fx
@@ -155,10 +156,7 @@ def choose_lamda(
                 break
         elif criterion == "c":
             obj_diff = objective_f(precision=x1) - objective_x
-            # if positive_definite(x1) and obj_diff <= lamda * tolerance:
-            cond = True
-            # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
-            if cond and obj_diff <= lamda * tolerance:
+            if obj_diff <= lamda * tolerance and positive_definite(x1):
                 break
         else:
             raise ValueError(criterion)
-- 
2.43.0


From 0266a768a9ec7480af9c546f7b7b8ce1ca405ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:28 +0000
Subject: [PATCH 42/66] fix: the forward-backward stopping rule measured the
 damped step, so a small lamda ended the iteration far from the optimum

---
 regain/forward_backward/time_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index f221e5e..8906594 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -365,7 +365,7 @@ def tgl_forward_backward(
                     normalizer = res_norm + 1e-6
                 max_residual = max(np.linalg.norm(grad), np.linalg.norm(subgrad)) + 1e-6
             else:
-                res_norm = np.linalg.norm(K - k_previous) / gamma
+                res_norm = np.linalg.norm(y - k_previous) / gamma
                 max_residual = max(max_residual, res_norm)
                 normalizer = max(np.linalg.norm(grad), np.linalg.norm(subgrad)) + 1e-6
 
-- 
2.43.0


From f13c863eaa5f86a6d9a8f9f171ef03300f8eec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:48 +0000
Subject: [PATCH 43/66] fix: the column-wise prox returned NaN for a zero
 column and a zero weight (psi or phi 'l2')

---
 regain/prox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9e1e132..196890c 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -60,7 +60,8 @@ def soft_thresholding_off_diagonal(a, lamda):
 
 def soft_thresholding_vector(a, lamda):
     """Soft-thresholding for vectors."""
-    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a
+    norm = np.linalg.norm(a, axis=-1, keepdims=True)
+    return np.maximum(1 - lamda / np.where(norm > 0, norm, 1), 0) * a
 
 
 def blockwise_soft_thresholding(a, lamda):
-- 
2.43.0


From 2249c8e91334f173d7b9453c1d5b404e9aff4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:28 +0000
Subject: [PATCH 44/66] fix: the l-infinity prox minimised a non-smooth
 function with a quasi-Newton method (inexact), and rejected kernel weights

---
 regain/prox.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 196890c..fabada0 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -84,8 +84,6 @@ def prox_linf_1d(a, lamda):
 
     min ||x||_inf + (1/2t)||x-w||^2
 
-    Since there is no closed-form, we can minimize it with scipy.
-
     Matlab reference
     ------
     %% Perform prox operator:   min_x (1/2t)||x-w||^2 subject to |x|<=radius
@@ -109,19 +107,17 @@ def prox_linf_1d(a, lamda):
         end
     end
     """
-    from scipy.optimize import minimize
-
-    def f(x):
-        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
-
-    return minimize(f, a).x
+    w = np.abs(a)
+    threshold = np.max((np.cumsum(np.sort(w)[::-1]) - lamda) / np.arange(1, w.size + 1))
+    return np.sign(a) * np.minimum(w, max(threshold, 0))
 
 
 def prox_linf(a, lamda):
     """Proximal operator for l-inf norm."""
     x = np.zeros_like(a)
+    lamda = np.broadcast_to(lamda, (a.shape[0], 1, 1))
     for t in range(a.shape[0]):
-        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
+        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda[t, 0, 0]) for j in range(a.shape[1])]).T
     return x
 
 
-- 
2.43.0


From 115077876d79c06fadb7d6fb2d044ee62b830e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:12 +0000
Subject: [PATCH 45/66] fix: choose='both' let gamma grow although lamda was
 backtracking, so the residual (divided by gamma) vanished far from the
 optimum

---
 regain/forward_backward/time_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index 8906594..cdf97b2 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -277,7 +277,7 @@ def tgl_forward_backward(
 
         if choose in ["gamma", "both"]:
             gamma, y = choose_gamma(
-                gamma / eps if iteration_ > 0 else gamma,
+                gamma / eps if iteration_ > 0 and (choose == "gamma" or lamda >= 1) else gamma,
                 K,
                 function_f=function_f,
                 beta=beta,
-- 
2.43.0


From ee7d9ca3d11a950c60e9f12ff9ecb43c0865284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 46/66] fix: WishartDistribution.sample raised TypeError (it
 froze the distribution instead of drawing from it)

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 523c2bc..68f213b 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -79,7 +79,7 @@ class WishartDistribution(BaseEstimator):
     def sample(self, n_samples=1):
         # return distributions.rwishart(self.nu, self.psi)
         # return distributions.rwishart(self.nu, self.inv_psi)
-        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)
+        return stats.wishart.rvs(df=self.nu, scale=self.S, size=n_samples)
 
 
 class InverseWishartDistribution(WishartDistribution):
-- 
2.43.0


From 4ba41d50bb8f1febf13a30168f53c2d951e8dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 47/66] fix: the posterior of a normal-inverse-Wishart had a
 two-dimensional mean, so sampling from it raised ValueError

---
 regain/bayesian/wishart_distribution_.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 68f213b..68a67ba 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -219,12 +219,9 @@ class NormalInverseWishartDistribution(InverseWishartDistribution):
         m_0 = self.mu
         m_n = (k_0 * m_0 + n * mean) / k_n
 
-        m_0 = np.atleast_2d(m_0)
-        m_n = np.atleast_2d(m_n)
-
         # mm = np.atleast_2d(mean - m_0)
         # psi_n_v1 = self.psi + S_mu + k_0 * n / k_n * mm.T.dot(mm)
-        S_n = self.S + S + k_0 * m_0.T.dot(m_0) - k_n * m_n.T.dot(m_n)
+        S_n = self.S + S + k_0 * np.outer(m_0, m_0) - k_n * np.outer(m_n, m_n)
 
         return NormalInverseWishartDistribution(m_n, k_n, nu_n, S_n)
 
-- 
2.43.0


From a66e1a67285c22ac81ba23a194325128edf142dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:03 +0000
Subject: [PATCH 48/66] fix: WishartDistribution kept the inverse and the size
 of the scale matrix it was constructed with (set_params(S=...) gave wrong
 densities)

---
 regain/bayesian/wishart_distribution_.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 68a67ba..5d06bc3 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -44,8 +44,14 @@ class WishartDistribution(BaseEstimator):
     def __init__(self, nu, S):
         self.nu = nu
         self.S = S
-        self.D = S.shape[0]
-        self.inv_S = linalg.pinvh(S)
+
+    @property
+    def D(self):
+        return self.S.shape[0]
+
+    @property
+    def inv_S(self):
+        return linalg.pinvh(self.S)
 
     @property
     def mean(self):
-- 
2.43.0


From 89876ae62bac1dbcc6198780b9554c98e2b2ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 49/66] fix: the node penalty started from a random point, so
 every objective of psi='node' differed and the global random stream advanced

---
 regain/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/norm.py b/regain/norm.py
index 1ec5742..349bf5e 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -69,7 +69,7 @@ def node_penalty(X):
     try:
         res = minimize(
             lambda x: np.sum(np.linalg.norm(x.reshape(X.shape), axis=0)),
-            np.random.randn(X.size),
+            np.ravel(X) / 2.0,
             constraints=cons,
         ).fun
     except ValueError:
-- 
2.43.0


From 27fec3292a52416b23d57f9770e04bf6d131e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:00 +0000
Subject: [PATCH 50/66] fix: the node penalty constrained only the sum of the
 entries of V + V^T - X

---
 regain/norm.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/regain/norm.py b/regain/norm.py
index 349bf5e..896a42c 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -56,23 +56,22 @@ def l1_od_norm(precision):
 
 
 def node_penalty(X):
-    """Node penalty. See Hallac for details."""
-    cons = (
-        {
-            "type": "eq",
-            "fun": lambda x: np.array(
-                (x.reshape(X.shape) + x.reshape(X.shape).T - X).sum()
-            ),
-            "jac": lambda x: np.full(X.size, 2),
-        },
-    )
-    try:
-        res = minimize(
-            lambda x: np.sum(np.linalg.norm(x.reshape(X.shape), axis=0)),
-            np.ravel(X) / 2.0,
-            constraints=cons,
-        ).fun
-    except ValueError:
-        res = np.nan
-
-    return res
+    """Node penalty. See Hallac for details.
+
+    It is the minimum of the summed column norms of V, where V + V^T = X.
+    """
+    upper = np.triu_indices_from(X, 1)
+
+    def column_norms(a):
+        # all feasible V differ by an antisymmetric matrix
+        V = X / 2.0
+        V[upper] += a
+        V.T[upper] -= a
+        norms = np.linalg.norm(V, axis=0)
+        unit = V / np.where(norms > 0, norms, 1)
+        return np.sum(norms), unit[upper] - unit.T[upper]
+
+    start = np.zeros(upper[0].size)
+    if not start.size:
+        return column_norms(start)[0]
+    return minimize(column_norms, start, jac=True).fun
-- 
2.43.0


From 374bb8e642feed0227022097094139ad5be38b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:16 +0000
Subject: [PATCH 51/66] fix: the node prox did not solve its problem
 (psi='node' missed the optimum): wrong transpose, penalty and dual scaling

---
 regain/prox.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index fabada0..6646b14 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -36,7 +36,6 @@ import numpy as np
 from sklearn.utils.extmath import squared_norm
 
 from regain.math import create_from_diagonal, fill_diagonal, get_diagonal
-from regain.update_rules import update_rho
 from regain.utils import Convergence
 
 try:
@@ -174,7 +173,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
     Y_2 = np.copy(U_1)
 
     C = np.hstack((np.eye(n_dim), -np.eye(n_dim), np.eye(n_dim)))
-    inverse = np.linalg.inv(C.T.dot(C) + 2 * np.eye(3 * n_dim))
+    inverse = np.linalg.inv(C.T.dot(C) + np.eye(3 * n_dim))
 
     V = np.zeros_like(U_1)
     W = np.zeros_like(U_1)
@@ -183,7 +182,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
 
     for iteration_ in range(max_iter):
         A = (
-            Y_1 - Y_2 - W - U_1 + (W.transpose(0, 2, 1) - U_2).transpose(0, 2, 1)
+            Y_1 - Y_2 - W - U_1 + W.transpose(0, 2, 1) - U_2
         ) / 2.0
         V = blockwise_soft_thresholding_symmetric(A, lamda=lamda)
 
@@ -192,7 +191,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
         # Z = np.linalg.solve(C.T*C + eta*np.identity(3*n), - C.T*D + eta* A)
         Z = np.empty_like(A)
         for i, (A_i, D_i) in enumerate(zip(A, D)):
-            Z[i] = inverse.dot(2 * A_i - C.T.dot(D_i))
+            Z[i] = inverse.dot(A_i - C.T.dot(D_i))
         W, Y_1, Y_2 = (Z[:, i * n_dim : (i + 1) * n_dim, :] for i in range(3))
 
         # update residuals
@@ -226,11 +225,6 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
         #         np.linalg.norm(delta_U_2, 'fro') < tol:
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
-        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_)
-        # scaled dual variables should be also rescaled
-        U_1 *= rho / rho_new
-        U_2 *= rho / rho_new
-        rho = rho_new
     else:
         warnings.warn("Node norm did not converge.")
     return Y_1, Y_2
-- 
2.43.0


From 5e7b33b611ad4bf12d73ea993fbb3b9e13c08892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 52/66] fix: psi='node' / phi='node' raised ValueError in the
 kernel estimators (per-lag weights do not broadcast in the node prox)

---
 regain/prox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/prox.py b/regain/prox.py
index 6646b14..4f26760 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -184,7 +184,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
         A = (
             Y_1 - Y_2 - W - U_1 + W.transpose(0, 2, 1) - U_2
         ) / 2.0
-        V = blockwise_soft_thresholding_symmetric(A, lamda=lamda)
+        V = blockwise_soft_thresholding(A, lamda=lamda)
 
         A = np.concatenate(((V + U_2).transpose(0, 2, 1), A_12), axis=1)
         D = V + U_1
-- 
2.43.0


From 90283725cd15f32c6632a04323ee014e6cdebbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 53/66] fix: the temporal Ising and Poisson models missed their
 optimum (wrong number of consensus terms per time point)

---
 regain/generalized_linear_model/glm_time_ising.py   | 4 ++--
 regain/generalized_linear_model/glm_time_poisson.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 39d3823..a4f63c1 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -165,7 +165,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_times - 1, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -182,7 +182,7 @@ def _fit_time_ising_model(
                 compute_objective=True,
                 warm_start=None,
                 rho=rho,
-                T=n_times,
+                T=n_times - 1,
                 return_history=False,
                 return_n_iter=False,
             )[0]
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 2ffd76b..75de383 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -160,7 +160,7 @@ def _fit_time_poisson_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_times - 1, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -176,7 +176,7 @@ def _fit_time_poisson_model(
                     tol=tol,
                     verbose=inner_verbose,
                     A=A[t, :, :],
-                    T=n_times,
+                    T=n_times - 1,
                     rho=rho,
                 )
                 thetas_pred.append(res[0])
-- 
2.43.0


From 0f7fda26edfeac95e2bd877d2911cd0fa08fe4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 54/66] fix: the temporal Ising and Poisson models recorded an
 objective with the sign of the loss flipped

---
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index a4f63c1..7a44c90 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 75de383..482cf20 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -50,7 +50,7 @@ def loss_poisson(X, K, n_samples=None):
     """Loss function for time-varying poisson model."""
     if n_samples is None:
         n_samples = np.ones(X.shape[0])
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From d5795b8a43c1f839d2ad14e03dc8cdc377951a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 55/66] fix: make_dataset mode 'mak' returned a precision
 matrix that is not positive definite

---
 regain/datasets/gaussian.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 3e33418..5e882d2 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -678,7 +678,6 @@ def make_ma_xue_zou_rand_k(
 
     # A is the gound truth inverse covariance matrix
     K = A.dot(A.T) + 1e-6 * np.eye(p)
-    K = A
     K_O = K[:po, :po]
     K_OH = K[:po, po:]
     K_HO = K[po:, :po]
-- 
2.43.0


From b400c39c347dfa38232d949cbbdc81a77fd62c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 56/66] fix: make_cluster_representative returned asymmetric
 precisions and one time point too many or too few

---
 regain/datasets/kernels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/kernels.py b/regain/datasets/kernels.py
index 14ab319..56e7a43 100644
--- a/regain/datasets/kernels.py
+++ b/regain/datasets/kernels.py
@@ -613,11 +613,13 @@ def make_cluster_representative(
         representative = nx.random_regular_graph(d=degree, n=n_dim)
         A = nx.adjacency_matrix(representative).todense().astype(float)
         A[np.where(A != 0)] = np.random.rand(np.where(A != 0)[0].size) * 0.45
+        A = np.triu(A, 1)
+        A += A.T
         np.fill_diagonal(A, 1)
         adjacencies.append(A)
         cluster_reps.append(representative)
 
-    pos = np.arange(0, T, T // (n_clusters + 1))
+    pos = np.arange(0, T - 1, T // (n_clusters + 1))
     pos = list(pos) + [T - 1]
 
     if cluster_series is None:
-- 
2.43.0


From 669a3401d1d6501d9c75010c6275c4ccc9c1d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 57/66] fix: generate_multiple_class_dataset moved the wrong
 edges, added self-loops and returned indefinite Gaussian precisions

---
 regain/datasets/multi_class.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index 7e95977..534a697 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -146,8 +146,8 @@ def generate_multiple_class_dataset(
         graph = nx.random_graphs.erdos_renyi_graph(n=n_dim_obs, p=probability, seed=random_state)
 
     binaries = [nx.adjacency_matrix(graph).todense()]
-    zeros = np.where(binaries[0] == 0)
-    nonzero = np.where(binaries[0] != 0)
+    zeros = np.where(np.triu(binaries[0] == 0, 1))
+    nonzero = np.where(np.triu(binaries[0] != 0, 1))
     to_add = int(0.1 * zeros[0].shape[0])
     to_remove = int(0.1 * nonzero[0].shape[0])
     for i in range(n_classes - 1):
@@ -156,12 +156,12 @@ def generate_multiple_class_dataset(
         _to_remove = np.random.choice(np.arange(nonzero[0].shape[0]), to_remove, replace=False)
         for ta in _to_add:
             a = np.random.choice([0, 1], p=[0.2, 0.8])
-            K_new[zeros[0][i], zeros[1][i]] = a
-            K_new[zeros[1][i], zeros[0][i]] = a
+            K_new[zeros[0][ta], zeros[1][ta]] = a
+            K_new[zeros[1][ta], zeros[0][ta]] = a
         for ta in _to_remove:
             a = np.random.choice([0, 1], p=[0.8, 0.2])
-            K_new[nonzero[0][i], nonzero[1][i]] = a
-            K_new[nonzero[1][i], nonzero[0][i]] = a
+            K_new[nonzero[0][ta], nonzero[1][ta]] = a
+            K_new[nonzero[1][ta], nonzero[0][ta]] = a
         binaries.append(K_new)
 
     res = {}
@@ -171,7 +171,9 @@ def generate_multiple_class_dataset(
         A = (A + A.T) / 2
         for b, k in zip(binaries, Ks_gaussian):
             k[np.where(b != 0)] = A[np.where(b != 0)]
-            np.fill_diagonal(k, 1)
+            # the largest row sum bounds the eigenvalues away from zero
+            np.fill_diagonal(k, 0)
+            np.fill_diagonal(k, max(1, 0.1 + np.abs(k).sum(axis=0).max()))
         res["gaussian"] = Ks_gaussian
 
     if "poisson" in distribution:
-- 
2.43.0


From 2f771a649988123a7957039f8a37f07ea250d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 58/66] fix: the Laplace scores of G-Wishart (the default of
 BayesianGraphicalLasso) raised ValueError on the empty data set of the prior

---
 regain/bayesian/gwishart_inference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..281f48d 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -182,8 +182,11 @@ def GWishartFit(X, G, GWprior, mode="covsel"):
     dn = n_samples + d0
 
     # X'*X - but I dont assume X to be centered
-    emp_cov = empirical_covariance(X)
-    S = n_samples * emp_cov
+    # without data only the prior is left
+    if n_samples > 0:
+        S = n_samples * empirical_covariance(X)
+    else:
+        S = np.zeros((n_dim, n_dim))
     C = (S + S0) / (dn - 2)
 
     if mode == "covsel":
-- 
2.43.0


From c893927fc4833bf80d6261c76791f328a27f7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 59/66] fix: the Laplace score of a G-Wishart was off by n * p,
 since the density at the mode has exp(-(d - 2) p / 2)

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 281f48d..870c27d 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -234,7 +234,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
 
     # % the posterior Sn parameter
     # Sn = (dn - 2) * invP
-    logh = (dn - 2) / 2.0 * (n_dim + logdetP)
+    logh = (dn - 2) / 2.0 * (logdetP - n_dim)
 
     # find full param set V
     Vi, Vj = np.nonzero(np.triu(G))
-- 
2.43.0


From 65d70156cf297de80d0fdba2050bdf5264966856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:54 +0000
Subject: [PATCH 60/66] fix: GWishartScore without S0 raised ValueError unless
 n_samples == n_features (covariance of the rows)

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 870c27d..ca963fd 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -328,7 +328,7 @@ def GWishartScore(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
     # %Initialize GW prior structure
     n_samples, n_dim = X.shape
     if S0 is None:
-        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, bias=True)))
+        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, rowvar=False, bias=True)))
 
     GWprior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
 
-- 
2.43.0


From 4ae383883f192edd6f5e85137934ad53e68622d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:09 +0000
Subject: [PATCH 61/66] fix: G-Wishart mode 'covsel' raised ValueError or
 returned an indefinite matrix when its line search left the positive definite
 cone

---
 regain/bayesian/gwishart_inference.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index ca963fd..0dda31f 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -140,22 +140,21 @@ def covsel(x, p, nonZero, C):
 
     # Fast Way to compute -logdet(X) + tr(X*C)
     # f = -2*sum(log(diag(R))) + sum(sum(C.*X)) + (lambda/2)*sum(X(:).^2);
-    f = -fast_logdet(X) + np.sum(C * X)
+    if linalg.eigvalsh(X)[0] <= 0:
+        # outside of the domain (the determinant alone does not tell)
+        return np.inf, np.zeros_like(x)
 
-    if f < np.inf:
-        g = C - linalg.pinvh(X)
-        g += np.tril(g, -1).T  # add contribution from lower to upper triangle
-        g = g[nonZero]
-    else:
-        g = 0
-    return f, g
+    f = -fast_logdet(X) + np.sum(C * X)
+    g = C - linalg.pinvh(X)
+    g += np.tril(g, -1).T  # add contribution from lower to upper triangle
+    return f, g[nonZero]
 
 
 def precision_selection(G, n_dim, C):
     """MLE of precision matrix given non-zero entries in G."""
     function = partial(covsel, p=n_dim, nonZero=G, C=C)
 
-    x0 = np.eye(n_dim)
+    x0 = np.diag(1.0 / np.diag(C))
     min_obj = minimize(function, x0[G], jac=True)
     x = min_obj.x
 
-- 
2.43.0


From f808a8f6fa8bd448b48e60e7c83c374c99c576a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:09 +0000
Subject: [PATCH 62/66] fix: BayesianGraphicalLasso.fit overwrote its parameter
 alphas

---
 regain/bayesian/gwishart_inference.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 0dda31f..b5aa0d4 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -494,9 +494,6 @@ class BayesianGraphicalLasso(GraphicalLasso):
         # Covariance does not make sense for a single feature
         X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
 
-        if self.alphas is None:
-            self.alphas = np.logspace(-2, 0, 20)
-
         self.precision_ = bayesian_graphical_lasso(
             X,
             tol=self.tol,
-- 
2.43.0


From 499f9a4b0c5f3073e2bd54c7741ef30bfcd8e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:09 +0000
Subject: [PATCH 63/66] fix: BayesianGraphicalLasso did not set covariance_ and
 location_ (score, error_norm, mahalanobis raised AttributeError)

---
 regain/bayesian/gwishart_inference.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index b5aa0d4..25aa26e 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -494,6 +494,11 @@ class BayesianGraphicalLasso(GraphicalLasso):
         # Covariance does not make sense for a single feature
         X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
 
+        if self.assume_centered:
+            self.location_ = np.zeros(X.shape[1])
+        else:
+            self.location_ = X.mean(0)
+
         self.precision_ = bayesian_graphical_lasso(
             X,
             tol=self.tol,
@@ -505,4 +510,5 @@ class BayesianGraphicalLasso(GraphicalLasso):
             max_iter=self.max_iter,
             top_n=self.top_n,
         )
+        self.covariance_ = linalg.pinvh(self.precision_)
         return self
-- 
2.43.0


From fcf6b46429a656e10306ae891363bef3704db397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:58 +0000
Subject: [PATCH 64/66] fix: the paspal group lasso dropped active groups when
 the penalty exceeds the step constant (norm compared with a squared
 threshold)

---
 regain/wrapper/paspal/glopridu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index cfcda37..e13504f 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -43,7 +43,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     # for g in range(B):
     #     to_be_projected[g] = np.linalg.norm(w0[blocks[g]], 2) >= weights[g]
     norm_blocks = np.array([np.linalg.norm(w0[block], 2) for block in blocks])
-    to_be_projected = norm_blocks >= weights
+    to_be_projected = norm_blocks ** 2 >= weights
 
     weights = weights[to_be_projected]
     blocks = blocks[to_be_projected]
-- 
2.43.0


From f91cc1a11e06e71ef09cee0fac141cce682b2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:17 +0000
Subject: [PATCH 65/66] fix: the paspal group lasso stalled away from its
 optimum on redundant (e.g. nested) groups (singular Newton system)

---
 regain/wrapper/paspal/glopridu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index e13504f..ea71afe 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -104,7 +104,10 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
         # print("time 2: ", time.time() - tic)
         # assert np.allclose(B_inactive, C_inactive)
 
-        p_inactive = linalg.pinv(B_inactive).dot(grad[I_inactive])
+        # redundant blocks make the Hessian singular: without a shift, the
+        # Newton direction would miss the gradient along its null space
+        B_inactive.flat[:: n_inactive + 1] *= 1 + 1e-6
+        p_inactive = linalg.pinv(B_inactive).dot(grad[I_inactive]) if n_inactive else np.zeros(0)
 
         I_active = np.where(np.logical_and(grad > 0, lamda <= epsk))[0]
         # n_active = I_active.size
-- 
2.43.0


From 8ca2716897fa5d66d38705ac9d9791c40b4fa773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:05 +0000
Subject: [PATCH 66/66] fix: IsingGraphicalModel(mode='logistic_regression')
 always raised (negative verbosity) and printed a debug line

---
 regain/generalized_linear_model/glm_ising.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index 6989cf4..6f4d34b 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -296,9 +296,8 @@ class IsingGraphicalModel(GLM_GM, BaseEstimator):
         elif self.mode.lower() == "logistic_regression":
             thetas_pred = []
             for ix in range(X.shape[1]):
-                verbose = min(0, self.verbose - 1)
+                verbose = max(0, self.verbose - 1)
                 selector = np.array([i for i in range(X.shape[1]) if i != ix])
-                print("pd")
                 res = (
                     LogisticRegression(
                         C=1 / self.alpha,
-- 
2.43.0

