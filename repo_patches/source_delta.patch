From 502d8a69c894ae4fad164bbdb9df286054501e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 001/141] fix: accept hold_h in the ws-nmf update, which
 SA.train always passes

---
 esat/model/ws_nmf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..7b4779e 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -64,6 +67,8 @@ class WSNMF:
             _w = np.matmul(_w_n, _w_di)
             _W.append(_w)
         W = np.array(_W)
+        if hold_h:
+            return W, H
 
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
-- 
2.43.0


From e9174d7e3e137dcabbf85248f1a31b3603f013fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 002/141] fix: import batch_sa and bs_disp when the optional
 esat_rust module is absent

---
 esat/error/bs_disp.py  | 7 ++++++-
 esat/model/batch_sa.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..10919f1 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -15,7 +15,12 @@ from esat.model.sa import SA
 from esat.error.bootstrap import Bootstrap
 from esat.error.displacement import Displacement
 from esat.utils import np_encoder
-from esat_rust import clear_screen
+try:
+    from esat_rust import clear_screen
+except ModuleNotFoundError:
+    def clear_screen():
+        # Without the optional compiled module there is nothing to clear with.
+        pass
 
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..6d19346 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -12,7 +12,12 @@ import multiprocessing as mp
 from logging.handlers import QueueHandler, QueueListener
 from esat.model.sa import SA
 from esat.utils import memory_estimate
-from esat_rust import clear_screen
+try:
+    from esat_rust import clear_screen
+except ModuleNotFoundError:
+    def clear_screen():
+        # Without the optional compiled module there is nothing to clear with.
+        pass
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
-- 
2.43.0


From 8ae2a6434192efa00d0033e011711f71b714254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 003/141] fix: leave negative uncertainties to the validation
 that refuses them

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..a9dc7e2 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -73,7 +73,7 @@ class SA:
         self.U = U.astype(np.float32)
 
         # The uncertainty matrix must not contain any zeros
-        self.U[self.U < EPSILON] = EPSILON
+        self.U[(self.U >= 0.0) & (self.U < EPSILON)] = EPSILON
 
         # Weights are calculated from the uncertainty matrix as 1/U^{2}
         self.We = np.divide(1, self.U ** 2).astype(np.float32)
-- 
2.43.0


From b2dfc3f0f4b437914754464225ae9bd1f9dd1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 004/141] fix: SA.save without a header raised on the
 contribution file

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index a9dc7e2..59512d2 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -504,7 +504,7 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = []
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
-- 
2.43.0


From 05cdad015fb87dedb988e1e7ac70472eb7e197f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 005/141] fix: initialize clipped the H matrix of the caller in
 place

---
 esat/model/sa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 59512d2..b00f355 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -259,6 +259,9 @@ class SA:
             if H.shape != (self.factors, self.n):
                 prior_H = H
                 H = None
+            else:
+                # H is clipped below, the matrix passed in must not change
+                H = H.copy()
 
         if "kmeans" in init_method.lower():
             self.metadata["init_norm"] = init_norm
-- 
2.43.0


From 132915ac2a49d70870ceafaf8830d3ae8fef5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 006/141] fix: clip generated profiles before normalizing a
 partial H, negative sums flipped the given profiles

---
 esat/model/sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index b00f355..02a4676 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -300,6 +300,7 @@ class SA:
         if prior_H is not None:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
+            H[H <= 0.0] = 1e-12
             H = H / H.sum(axis=0)
         H[H <= 0.0] = 1e-12
         self.H = H
-- 
2.43.0


From 71a89a18ba641cb69672debcb8bb9d709bb3a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 007/141] fix: column mean initialization produced NAN for data
 with a negative sample or feature mean

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 02a4676..4ef5dab 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -278,7 +278,7 @@ class SA:
             VH_mean = np.mean(self.V, axis=0)
             VW_mean = np.mean(self.V, axis=1)
             if H is None:
-                V_avg = np.sqrt(VH_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VH_mean) / self.factors)
                 H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
             if "update" in init_method.lower():
                 if self.method == "ls-nmf":
@@ -286,7 +286,7 @@ class SA:
                 else:
                     W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
             if W is None:
-                V_avg = np.sqrt(VW_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VW_mean) / self.factors)
                 V_avg = V_avg.reshape(len(V_avg), 1)
                 W = np.multiply(V_avg, self.rng.standard_normal(size=(self.m, self.factors)).astype(self.V.dtype,
                                                                                                     copy=False))
-- 
2.43.0


From c4d5122f6a60db073f379b6280b827763626c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 008/141] fix: k-means initialization replaced the W and H
 matrices passed in

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 4ef5dab..4e637a7 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -269,8 +269,8 @@ class SA:
             contributions = np.zeros(shape=(len(clusters), self.factors)) + (1.0 / self.factors)
             for i, c in enumerate(clusters):
                 contributions[i, c] = self.rng.normal(1.0, 0.1, None)
-            W = contributions
-            H = centroids
+            W = contributions if W is None else W
+            H = centroids if H is None else H
             if self.verbose:
                 logger.debug(f"Factor profile and contribution matrices initialized using k-means clustering. "
                              f"The observations were {'not' if not init_norm else ''} normalized.")
-- 
2.43.0


From d58e7cddd4952f45651bf5eaa119697471e77c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 009/141] fix: ls-nmf turned data with an all zero sample or
 feature into NAN factors

---
 esat/model/ls_nmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/ls_nmf.py b/esat/model/ls_nmf.py
index 05e5588..53bd181 100644
--- a/esat/model/ls_nmf.py
+++ b/esat/model/ls_nmf.py
@@ -41,11 +41,11 @@ class LSNMF:
             WH = np.matmul(W, H)
             H_num = np.matmul(W.T, WeV)
             H_den = np.matmul(W.T, np.multiply(We, WH))
-            H = np.multiply(H, np.divide(H_num, H_den))
+            H = np.multiply(H, np.divide(H_num, H_den, out=np.zeros_like(H_num), where=H_den > 0))
 
         WH = np.matmul(W, H)
         W_num = np.matmul(WeV, H.T)
         W_den = np.matmul(np.multiply(We, WH), H.T)
-        W = np.multiply(W, np.divide(W_num, W_den))
+        W = np.multiply(W, np.divide(W_num, W_den, out=np.zeros_like(W_num), where=W_den > 0))
 
         return W, H
-- 
2.43.0


From 8f86d11123251467f2171b0b6b661580ceaaa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 010/141] fix: ws-nmf took the square root of a negative number
 when V has negative values

---
 esat/model/ws_nmf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 7b4779e..a05e68b 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -81,8 +81,11 @@ class WSNMF:
             uv_j = uV[:, j]
             uv_j = uv_j.reshape(len(uv_j), 1)
 
-            n1 = np.matmul(uv_j.T, W_p)[0]
-            d1 = np.matmul(uv_j.T, W_n)[0]
+            # Split the data by sign as well, so that both terms stay non-negative when V has negative values
+            uv_jn = (np.abs(uv_j) - uv_j) / 2.0
+            uv_jp = (np.abs(uv_j) + uv_j) / 2.0
+            n1 = (np.matmul(uv_jp.T, W_p) + np.matmul(uv_jn.T, W_n))[0]
+            d1 = (np.matmul(uv_jp.T, W_n) + np.matmul(uv_jn.T, W_p))[0]
 
             n2a = np.matmul(W_n.T, wej_d)
             n2b = np.matmul(n2a, W_n)
-- 
2.43.0


From 4dbce8402ed583622aeb91ddd54efc4ecd7e4fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 011/141] fix: k-means initialization raised for data with a
 singular covariance

---
 esat/model/sa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 4e637a7..1792230 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -265,7 +265,11 @@ class SA:
 
         if "kmeans" in init_method.lower():
             self.metadata["init_norm"] = init_norm
-            centroids, clusters = kmeans2(data=obs, k=self.factors, seed=self.seed)
+            try:
+                centroids, clusters = kmeans2(data=obs, k=self.factors, seed=self.seed)
+            except np.linalg.LinAlgError:
+                # The default start of the clusters requires a non-singular covariance
+                centroids, clusters = kmeans2(data=obs, k=self.factors, minit='points', seed=self.seed)
             contributions = np.zeros(shape=(len(clusters), self.factors)) + (1.0 / self.factors)
             for i, c in enumerate(clusters):
                 contributions[i, c] = self.rng.normal(1.0, 0.1, None)
-- 
2.43.0


From 8b4b3db81fbdcab78cbe363e52510a5629de07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 012/141] fix: a repeated train kept the converged flag and
 step count of the previous one

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 1792230..202ea12 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -435,6 +435,8 @@ class SA:
             q_robust, U_robust = qr_loss(V=self.V, U=self.U, W=self.W, H=self.H, alpha=robust_alpha)
             t1 = time.time()
         else:
+            self.converged = False
+            self.converge_steps = 0
             prior_q = []
             t_iter = trange(max_iter, desc=f"Model: {model_i}, Seed: {self.seed}, Q(true): NA, MSE(true): NA, "
                                            f"Q(robust): NA, MSE(robust): NA, dQ: NA",
-- 
2.43.0


From 9a29133832628c26658a5d3061c93f2c84a62908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 013/141] fix: sequential batch training ignored delay_h

---
 esat/model/batch_sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 6d19346..fdef83e 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -304,6 +304,7 @@ class BatchSA:
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
+                                        delay_h=self.delay_h,
                                         progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
-- 
2.43.0


From 0e8bfc72e407e7bb3531c2f0ca629bb88af5f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 014/141] fix: sequential batch training did not accept per
 model W and H matrices

---
 esat/model/batch_sa.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index fdef83e..8a9183a 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -297,7 +297,13 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None and len(np.shape(self.H)) == 3:
+                            i_H = np.array(self.H)[model_i - 1]
+                        i_W = self.W
+                        if self.W is not None and len(np.shape(self.W)) == 3:
+                            i_W = np.array(self.W)[model_i - 1]
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
-- 
2.43.0


From 418fade3a855d0b73874b9a5e69a87a1baa8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 015/141] fix: samples missing a value in only one of data and
 uncertainty reached the prepared matrices

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..5beb6fc 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -322,8 +322,8 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        _input_data = _input_data[~_input_nans & ~_uncertainty_nans]
+        _uncertainty_data = _uncertainty_data[~_input_nans & ~_uncertainty_nans]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From d7d03f41e8ffaf1bd915726bfede443d66796e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 016/141] fix: the replacement for zeros underflowed back to
 zero in the float32 matrices

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 5beb6fc..e55554e 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,7 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+EPSILON = float(np.finfo(np.float32).tiny)
 
 
 class DataHandler:
-- 
2.43.0


From e5a236fc53036c3bc9209b71183d73068cfb6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 017/141] fix: set_category on an unknown feature added it to
 the metrics and broke get_data

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e55554e..1967cb1 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -145,6 +145,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Unknown feature: {feature}")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From 97fb0f355e2481f22ee38d728946294e220d436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 018/141] fix: the default block size was derived from the
 number of features and could be zero

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 1967cb1..e0306db 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -434,7 +434,7 @@ class DataHandler:
                     optimal_block.append(opt.b_star_cb)
                 self.optimal_block = math.floor(np.mean(optimal_block))
         except ValueError as e:
-            self.optimal_block = int(input_data.shape[1]/5)
+            self.optimal_block = max(1, int(input_data.shape[0]/5))
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
 
     def _aggregate_data(self):
-- 
2.43.0


From 66a00f25a336853e0220a2c0e49cd5d0b1511942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 019/141] fix: the aggregated input data was not made available
 to the plots

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e0306db..59b7389 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -465,7 +465,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
+        self.input_data_plot = agg_input
         self.uncertainty_data_plot = agg_uncertainty
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
-- 
2.43.0


From d4b6efaa2f88a95671c75056fecf4793bf075570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 020/141] fix: plots of a DataHandler loaded from dataframes
 had no data

---
 esat/data/datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 59b7389..d675b83 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -902,4 +902,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 32bcbbabac2872f7c952c61c0eb4cd642af17a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 021/141] fix: location and dropped columns were treated as
 features, non-numeric ones failed the load

---
 esat/data/datahandler.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d675b83..1a52455 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -198,7 +198,8 @@ class DataHandler:
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
-            dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh = DataHandler.load_dataframe(input_df=self._drop_non_features(input_data_loc),
+                                            uncertainty_df=self._drop_non_features(uncertainty_data_loc))
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
@@ -286,20 +287,11 @@ class DataHandler:
         """
         Sets the processed input and uncertainty datasets.
         """
-        # Drop columns if specified
-        if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-        else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
-
-        # Drop location columns if specified
-        if self.loc_cols is not None:
-            if isinstance(self.loc_cols, str):
-                self.loc_cols = [self.loc_cols]
-            _input_data = _input_data.drop(labels=self.loc_cols, axis=1)
-            _uncertainty_data = _uncertainty_data.drop(labels=self.loc_cols, axis=1)
+        # Drop the columns to drop and the location columns if specified, before the conversion as they can be non-numeric
+        if isinstance(self.loc_cols, str):
+            self.loc_cols = [self.loc_cols]
+        _input_data = copy.copy(self._drop_non_features(self.input_data)).astype("float32")
+        _uncertainty_data = copy.copy(self._drop_non_features(self.uncertainty_data)).astype("float32")
 
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
@@ -397,8 +389,8 @@ class DataHandler:
         self.min_values = self.input_data.min(axis=0)
         self.max_values = self.input_data.max(axis=0)
 
-        c_df = self.input_data.copy()
-        u_df = self.uncertainty_data.copy()
+        c_df = self._drop_non_features(self.input_data).copy()
+        u_df = self._drop_non_features(self.uncertainty_data).copy()
 
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
@@ -417,6 +409,15 @@ class DataHandler:
             data={"Category": categories, "S/N": sn, "Min": min_con, "25th": p25, "50th": median_con, "75th": p75,
                   "Max": max_con})
 
+    def _drop_non_features(self, data: pd.DataFrame):
+        """
+        The data without the dropped and the location columns, which are not features and can be non-numeric.
+        """
+        for cols in (self.drop_col, self.loc_cols):
+            if cols is not None:
+                data = data.drop(labels=cols, axis=1)
+        return data
+
     def _determine_optimal_block(self, input_data=None):
         """
         Runs the recombinator code to obtain the optimal block size for Bootstrap based upon the Politis and White 2004
@@ -425,7 +426,7 @@ class DataHandler:
         Sets the self.optimal_block parameter by taking the average value of b_star_cb of each feature.
         """
         if input_data is None:
-            input_data = self.input_data.to_numpy()
+            input_data = self._drop_non_features(self.input_data).to_numpy()
         try:
             with np.errstate(divide='ignore', invalid='ignore'):
                 optimal_blocks = optimal_block_length(input_data)
-- 
2.43.0


From 186c9e1f9d414a68631bbba8999495dedaedb841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 022/141] fix: get_data and split_locations failed after a
 merge, the source label was treated as a feature

---
 esat/data/datahandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 1a52455..1a88d24 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -257,6 +257,10 @@ class DataHandler:
         self.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
         self.features = [col for col in self.input_data.columns if col != 'source_label']
 
+        # The source label is not a feature
+        loc_cols = [self.loc_cols] if isinstance(self.loc_cols, str) else list(self.loc_cols or [])
+        self.loc_cols = loc_cols + [col for col in ('source_label',) if col not in loc_cols]
+
         logger.info("DataHandlers merged successfully.")
         return True
 
-- 
2.43.0


From 5a6e236b4438240d13143c59ebe097765d4cfc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 023/141] fix: the suggested block size could be zero or
 negative

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 1a88d24..1772a7f 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -437,7 +437,7 @@ class DataHandler:
                 optimal_block = []
                 for opt in optimal_blocks:
                     optimal_block.append(opt.b_star_cb)
-                self.optimal_block = math.floor(np.mean(optimal_block))
+                self.optimal_block = max(1, math.floor(np.mean(optimal_block)))
         except ValueError as e:
             self.optimal_block = max(1, int(input_data.shape[0]/5))
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
-- 
2.43.0


From 6dbabefb230b55f141e4db22611dd75bb812ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 024/141] fix: DataImputer raised a NameError when scikit-learn
 is installed

---
 esat/data/impute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..8d59927 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
-- 
2.43.0


From 37d68aaf49d1ab0f97eb50bfaa9e1a7329c6cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 025/141] fix: imputation failed on the labels of the
 uncertainty, which were lost before imputing

---
 esat/data/impute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 8d59927..f71e01a 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -58,7 +58,7 @@ class DataImputer:
         U = self.data_handler.uncertainty_data
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
-            U = np.where(U == self.missing_value, np.nan, U)
+            U = U.mask(U == self.missing_value)
 
         # Create a mask for referencing missing values
         self.imputation_mask = np.isnan(V) | np.isnan(U)
-- 
2.43.0


From 6bab5f1e5d49d733d6c7fd9557453754c98806c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 026/141] fix: a block size above half the samples made the
 bootstrap raise a TypeError

---
 esat/error/bootstrap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..38a71d8 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,10 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            block_size = max(int(N / 2), 1)
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. "
+                            f"Setting block size to {block_size}")
+            self.block_size = block_size
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
-- 
2.43.0


From 95e80075a7c768868f77cde2a6bbf6d6ead64a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 027/141] fix: the last block of samples was never drawn in the
 bootstrap resampling

---
 esat/error/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 38a71d8..4f119c2 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -165,12 +165,12 @@ class Bootstrap:
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
-                index_i = index_blocks[rng_i]
+                rng_i = int(rng.integers(low=0, high=M, size=1)[0])
+                index_i = list(index_blocks[rng_i])
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From 2290fcf7931f28c5ab92dcfa443cad32cbc6d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 028/141] fix: the order of parallel bootstrap results depended
 on the worker finishing order

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 4f119c2..c700e4c 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -416,7 +416,7 @@ class Bootstrap:
                     for i in pool.imap_unordered(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
-            for r in results:
+            for r in sorted(results, key=lambda x: x[0]):
                 self.bs_results[r[0]] = r[1]
         else:
             for i in tqdm(range(1, self.bootstrap_n+1), desc="Bootstrap resampling, training and mapping"):
-- 
2.43.0


From 40daa65cfb180fc08f84a8f2b1f60c456deffadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 029/141] fix: bootstrap statistics and tables zeroed small
 values of the models' profiles in place

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c700e4c..599138b 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -562,7 +562,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = j_v["model"].H[i].copy()
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -627,7 +627,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = self.base_H[factor].copy()
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From da9eb54db4279893460a9b672d6b54152bf111ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 030/141] fix: Bootstrap.save returned None for a pickle

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 599138b..010e93a 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -794,7 +794,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From 59d7036a0a3a28ad95dd41e57daac62adeecf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 031/141] fix: parallel displacement swaps were counted for the
 wrong factor, by worker finishing order

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..003a6e3 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -342,7 +342,7 @@ class Displacement:
                 for i in pool.imap_unordered(self._increase_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
-        for factor_i, feature_j, i_results in results:
+        for factor_i, feature_j, i_results in sorted(results, key=lambda x: (x[0], x[1])):
             factor_key = f"factor-{factor_i+1}"
             feature_key = f"feature-{feature_j}"
             if factor_key not in self.increase_results:
@@ -498,7 +498,7 @@ class Displacement:
                 for i in pool.imap_unordered(self._decrease_disp_p, parallel_args):
                     pbar.update(1)
                     results.append(i)
-        for factor_i, feature_j, i_results in results:
+        for factor_i, feature_j, i_results in sorted(results, key=lambda x: (x[0], x[1])):
             factor_key = f"factor-{factor_i+1}"
             feature_key = f"feature-{feature_j}"
             if factor_key not in self.decrease_results:
-- 
2.43.0


From 7d748f987ab75416ee7d012f084acfe6e0608cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 032/141] fix: the dQ labels of the displacement swap table
 were in reverse order of its rows

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 003a6e3..cabca00 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,7 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
 
@@ -677,7 +677,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
+                    dq_list = list(self.dQmax)
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
-- 
2.43.0


From 38937294085b9716da556b4351c62f8a6b6323b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 033/141] fix: the displacement Q drop was reported for
 increases of Q, drops were reported as zero

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index cabca00..229401d 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -327,7 +327,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": disp_i_sa.Qtrue - self.base_Q}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.increase_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -417,7 +417,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": disp_i_sa.Qtrue - self.base_Q}
         return factor_i, feature_j, i_results
 
     def _decrease_disp(self, batch: int = -1):
@@ -482,7 +482,7 @@ class Displacement:
                     factor_conc_i = factor_conc_sum[feature_j]
                     i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                                 "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                                "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                                "Q_drop": disp_i_sa.Qtrue - self.base_Q}
                 factor_results[f"feature-{feature_j}"] = i_results
             self.decrease_results[f"factor-{factor_i+1}"] = factor_results
 
@@ -557,7 +557,7 @@ class Displacement:
             factor_conc_i = factor_conc_sum[feature_j]
             i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                         "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
-                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
+                                        "Q_drop": disp_i_sa.Qtrue - self.base_Q}
         return factor_i, feature_j, i_results
 
     def _compile_results(self):
-- 
2.43.0


From a7231b9648f07b6e6491f67c3725a93c28aa6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 034/141] fix: Displacement ignored max_search

---
 esat/error/displacement.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 229401d..4deb7b6 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -308,7 +308,7 @@ class Displacement:
                         search_i += 1
                         if dQ > max_dQ:
                             max_dQ = dQ
-                        if search_i >= max_high_search:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -399,7 +399,7 @@ class Displacement:
                 search_i += 1
                 if dQ > max_dQ:
                     max_dQ = dQ
-                if search_i >= max_high_search:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
@@ -442,7 +442,6 @@ class Displacement:
                     max_dQ = 0
                     search_i = 0
                     p_mod = 0.0
-                    max_search_i = 50
                     while not value_found:
                         new_H =  copy.copy(self.H)
                         new_value = self.H[factor_i, feature_j] * modifier
@@ -463,7 +462,7 @@ class Displacement:
                         if dQ > max_dQ:
                             max_dQ = dQ
                         p_mod = modifier
-                        if search_i >= max_search_i:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -518,7 +517,6 @@ class Displacement:
             max_dQ = 0
             search_i = 0
             p_mod = 0.0
-            max_search_i = 50
             while not value_found:
                 new_H = copy.copy(self.H)
                 new_value = self.H[factor_i, feature_j] * modifier
@@ -539,7 +537,7 @@ class Displacement:
                 if dQ > max_dQ:
                     max_dQ = dQ
                 p_mod = modifier
-                if search_i >= max_search_i:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
-- 
2.43.0


From 878a52d5726ccbf7b94b8a6f557faa16bca65533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 035/141] fix: a repeated displacement run added its swaps to
 the counts of the previous run

---
 esat/error/displacement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 4deb7b6..719a596 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -603,6 +603,8 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
         factor_i = 0
         for factor, factor_results in self.increase_results.items():
             for feature, feature_results in factor_results.items():
-- 
2.43.0


From c2c146c48004f86b288955283ac82271255b210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 036/141] fix: parallel BS-DISP raised a TypeError

---
 esat/error/bs_disp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 10919f1..6aae78a 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -182,7 +182,7 @@ class BSDISP:
                         pbar.update(1)
                         results.append(i)
 
-            for result in results:
+            for result in sorted(results, key=lambda x: x[0]):
                 i, i_disp = result
                 self.disp_results[i] = i_disp
         else:
@@ -206,7 +206,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From 306c2a7c38f7990579af79af59f7cdcad6c1368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 037/141] fix: BS-DISP left the last bootstrap run out of its
 compiled results

---
 esat/error/bs_disp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6aae78a..e4a1afd 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -233,7 +233,8 @@ class BSDISP:
         dQ_drop = disp_result["dQ_drop"]
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        self.n_drops = 1 if any(dQ_drop < 0.0) else 0
+        for result_i in list(self.disp_results.keys())[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-- 
2.43.0


From 3d40e4de04efa2774db580342ea0edf23d0d7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 038/141] fix: BS-DISP minimum and mean profiles were not those
 of the runs

---
 esat/error/bs_disp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index e4a1afd..c6de51f 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -238,7 +238,7 @@ class BSDISP:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -253,7 +253,7 @@ class BSDISP:
             if any(dQ_drop_i < 0.0):
                 self.n_drops += 1
         self.compiled_results =  copy.copy(self.disp_results[key0].compiled_results)
-        self.compiled_results["profiles"] = np.mean(disp_profiles, axis=0)
+        self.compiled_results["profile"] = np.mean(disp_profiles, axis=0)
         self.compiled_results["profile_max"] = profiles_max
         self.compiled_results["profile_min"] = profiles_min
         self.compiled_results["conc"] = np.mean(disp_conc, axis=0)
-- 
2.43.0


From 9bf024ee5b1dcb64db63b81562d686bfe5d3c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 039/141] fix: the dQ labels of the BS-DISP swap table were in
 reverse order of its rows

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index c6de51f..ef361ed 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -288,7 +288,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
-- 
2.43.0


From f42b3d283ee5e67b4cfa3fd1e9761d1978bb582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 040/141] fix: BS-DISP profile and contribution plots fell back
 to dQ 4 instead of the documented 0.5

---
 esat/error/bs_disp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index ef361ed..7c088f9 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -342,7 +342,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
@@ -384,7 +384,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
-- 
2.43.0


From db8cb42704c6dac20491cbea1be09a57f8f2a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 041/141] fix: a repeated BS-DISP run added its swaps to the
 counts of the previous run

---
 esat/error/bs_disp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 7c088f9..0b62794 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -261,6 +261,9 @@ class BSDISP:
         self.compiled_results["conc_min"] = conc_min
         self.compiled_results["dQ_drop"] = dQ_drop
 
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.disp_swap = 0
         for result_i in self.disp_results.keys():
             self.swap_table = self.swap_table + self.disp_results[result_i].swap_table
             self.count_table = self.count_table + self.disp_results[result_i].count_table
-- 
2.43.0


From 2cae2ef12373081f14744a29987d2a8a01cba670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 042/141] fix: BSDISP.save returned the path of a pickle that
 was not written

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 0b62794..d4835a1 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -442,6 +442,7 @@ class BSDISP:
                     pickle.dump(self, save_file)
                     logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From 184fd0736a958b7a224988361b3394a7fa24c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 043/141] fix: sample constraints accepted factors out of range
 and were labelled with the indices swapped

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..4c6810d 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -224,11 +224,11 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From c5d78008d487aa950b243c7745157e2172743e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 044/141] fix: add_constraint stored constraints of unknown
 type or target or without their parameters

---
 esat/rotational/constrained.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 4c6810d..e647ed0 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -229,6 +229,13 @@ class ConstrainedModel:
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
             constraint_label = f"factor:{index[1]}|sample:{index[0]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets are feature, sample")
+            return False
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types are {Constraint.type_list}")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
@@ -239,6 +246,12 @@ class ConstrainedModel:
             target_values = (target_value, dQ)
         elif constraint_type == 'define limits':
             target_values = (min_value, max_value)
+        if constraint_type in ('pull down', 'pull up', 'pull to value', 'define limits'):
+            if target_values is None or np.any([v is None for v in np.ravel(target_values)]):
+                logger.error(f"Error: Missing parameter for constraint type {constraint_type}. "
+                             f"Provided target_value: {target_value}, min_value: {min_value}, max_value: {max_value}, "
+                             f"dQ: {dQ}")
+                return False
         new_constraint = Constraint(
             constraint_type=constraint_type,
             index=index,
-- 
2.43.0


From 46a333cc0ab01dec592d564205bfb0164465828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 045/141] fix: define limits pushed elements above the maximum
 further up and doubled elements inside the limits

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index e647ed0..bc864e8 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -361,9 +361,9 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
+                    new_value = constraint.target_values[1] - current_value
                 else:
-                    new_value = current_value
+                    new_value = 0.0
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From 95ff90aa9866b8465ab0e37a2204005ef8bd2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 046/141] fix: pull down compounded its search steps and could
 exceed the dQ limit

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index bc864e8..a4b1d3a 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -605,13 +605,14 @@ class ConstrainedModel:
         p_mod = 0.0
         new_value = 0.0
         max_seach_i = 30
+        base_value = _H[index] if target == "feature" else _W[index]
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = base_value * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = base_value * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From 2959de17fdecfd2780b0457679c6015c79860257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 047/141] fix: pull to a value above the current one searched
 away from the dQ limit

---
 esat/rotational/constrained.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a4b1d3a..5c9d6ae 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -704,12 +704,9 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # The search is between the current value, dQ=0, and the target value which is above the dQ limit.
+        high_value = current_value
+        low_value = target_value
 
         mid_value = (high_value + low_value) / 2
 
-- 
2.43.0


From 394678650a49f5825cb63532b6912af84e083736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 048/141] fix: pull up left the element unchanged when the dQ
 limit is below 100

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 5c9d6ae..6fa2411 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -640,7 +640,7 @@ class ConstrainedModel:
         iQ = q_loss(V=self.base_model.V, U=self.base_model.U, W=iW, H=iH)
 
         high_modifier = 2.0
-        low_modifier = 0.0
+        low_modifier = 1.0
         high_found = False
         high_search_i = 0
         max_search_i = 30
-- 
2.43.0


From bfe433c20d34c66799784d3fd3131e52ff278bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 049/141] fix: evaluate_expressions read sample elements with
 the indices swapped

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 6fa2411..db17b77 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -862,9 +862,9 @@ class ConstrainedModel:
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
-                    else self.constrained_model.W[ele_index]
+                    else self.constrained_model.W[ele_index[1], ele_index[0]]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-                    ele_index]
+                    ele_index[1], ele_index[0]]
                 exp_element[ele] = (ele_index, element_details['type'], np.round(base_value,4), np.round(ele_value,4))
                 exp_values.append(ele_value * ele_coef)
                 base_values.append(base_value * ele_coef)
-- 
2.43.0


From 5138669fdf5b4ff890dba25ceacec3a6c53e631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 050/141] fix: the Q(Main) plot showed the Q(aux) values after
 the Q(true) values instead of their sum

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index db17b77..a9fe8fa 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -789,7 +789,7 @@ class ConstrainedModel:
         elif Qtype.lower() == "main":
             title = 'Q(Main)'
             x = list(range(len(self.Q_list[0])))
-            y = self.Q_list[0] + self.Q_list[2]
+            y = list(np.add(self.Q_list[0], self.Q_list[2]))
         else:
             logger.error(f"Error: Invalid option for Qtype. Provided value: {Qtype}. "
                          f"Available options: true, robust, aux, main.")
-- 
2.43.0


From b85fbb9fc771697882d674401a1348997ec111aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 051/141] fix: ConstrainedModel.save did not return the path of
 the saved model

---
 esat/rotational/constrained.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a9fe8fa..2f28683 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1178,7 +1178,7 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            self.constrained_model.save(
+            file_path = self.constrained_model.save(
                 model_name=model_name,
                 output_directory=output_directory,
                 pickle_model=pickle_model,
@@ -1192,8 +1192,10 @@ class ConstrainedModel:
             with open(meta_file, "w") as mfile:
                 json.dump(metadata, mfile, default=np_encoder)
                 logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return file_path
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From 94e2002eed87d2024dd8e3c6af2667bac1afd3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 052/141] fix: expressions with spaces raised and a leading
 minus sign was ignored

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 2f28683..1377891 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -564,10 +564,10 @@ class ConstrainedModel:
         expressions_labeled = []
         terms = 0
         for exp_i in range(len(self.expressions)):
-            expression_full = self.expressions[exp_i].split("=")
+            expression_full = self.expressions[exp_i].replace(" ", "").split("=")
             expression_eq = expression_full[1].split(",")
             dQ = float(expression_eq[1])
-            expression = re.split(r"[()]+", expression_full[0])[1:-1]
+            expression = re.split(r"[()]+", expression_full[0])[:-1]
             neg_term = False
             expression_labeled = []
             for e in expression:
-- 
2.43.0


From a8cafdc56448e263d78c03f891c18d8250e3a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 053/141] fix: expressions were solved for the sum of their
 elements instead of zero, unsatisfied ones moved away

---
 esat/rotational/constrained.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1377891..8937cac 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -377,6 +377,7 @@ class ConstrainedModel:
 
         exp_A = np.zeros(shape=(len(self.expression_labeled), len(self.expression_mapped.keys())))
         exp_B = np.zeros(shape=len(self.expression_labeled))
+        exp_x0 = np.zeros(shape=len(self.expression_mapped.keys()))
 
         # If there are expressions.
         if len(self.expression_labeled) > 0:
@@ -384,7 +385,7 @@ class ConstrainedModel:
             total_dQ = 0
 
             # Set the values of the expression matrix, from the coefficients in the expressions.
-            # Set the expression total vector to the sum of the expression values from the factor elements in the expression
+            # Set the expression total vector to the change required for the expression to equal zero.
             for i, exp in enumerate(self.expression_labeled):
                 total_dQ += exp[1]
                 exp_b = 0
@@ -394,23 +395,24 @@ class ConstrainedModel:
                         e_value = iH[exp_details['index']]
                     else:
                         e_value = iW[(exp_details['index'][1], exp_details['index'][0])]
-                    exp_b += e_value
                     if e_value < min_value:
                         min_value = e_value
                     exp_index = exp_details['exp_i'].index(i)
                     coef_index = exp_details['coef_index']
                     coef_value = float(exp_details['coef'][exp_index])
                     exp_A[i, coef_index] = coef_value
-                exp_B[i] = exp_b
+                    exp_x0[coef_index] = e_value
+                    exp_b += coef_value * e_value
+                exp_B[i] = -exp_b
 
-            # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
-            exp_bounds = (1e-8, np.max(exp_B))
+            # Solve for the changes of the factor elements using a least squares solver from scipy.optimize (with the resulting values bounded to be above zero)
+            exp_bounds = (np.minimum(1e-8 - exp_x0, 0.0) - 1e-12, np.inf)
             exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
             for lbl, exp in self.expression_mapped.items():
                 coef_index = exp['coef_index']
-                ele_value = exp_X.x[coef_index]
+                ele_value = max(exp_x0[coef_index] + exp_X.x[coef_index], 1e-8)
                 ele_index = exp['index']
                 if exp['type'] == 'feature':
                     D_h[ele_index] = ele_value
-- 
2.43.0


From 71e0c98f440cc33fa5132acfada1eaecc56b1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 054/141] fix: factor estimation measured the test error on
 every cell instead of the held out cells

---
 esat/estimator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..2d87de9 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -1,6 +1,5 @@
 import logging
 import os
-import copy
 import numpy as np
 import pandas as pd
 import multiprocessing as mp
@@ -71,9 +70,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From 3084ed845da450870eb721a70e20748d14186d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 055/141] fix: factor estimation trained on the cells it held
 out for the test error

---
 esat/estimator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 2d87de9..798eb77 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -5,6 +5,7 @@ import pandas as pd
 import multiprocessing as mp
 import plotly.graph_objects as go
 from plotly.subplots import make_subplots
+from esat.metrics import q_loss, qr_loss, EPSILON
 from esat.model.sa import SA
 from tqdm import tqdm
 
@@ -72,7 +73,10 @@ class FactorEstimator:
         m_train = np.count_nonzero(mask)
         i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
-        _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
+        U = np.maximum(U, EPSILON)
+        # The held out cells are given a negligible weight, so that they have no part in the training.
+        train_U = np.where(mask == 1, U, U * 1e6)
+        _sa = SA(V=V, U=train_U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
         _sa.train(max_iter=max_iter, converge_delta=converge_delta, converge_n=converge_n)
         residuals = V - _sa.WH
@@ -82,7 +86,9 @@ class FactorEstimator:
         test_residuals = np.multiply(i_mask, s_residuals)
         train_mse = np.round(train_residuals.sum()/m_train, 5)
         test_mse = np.round(test_residuals.sum()/m_test, 5)
-        return train_mse, test_mse, factor_n, _sa.Qtrue, _sa.Qrobust
+        q_true = q_loss(V, U, _sa.W, _sa.H)
+        q_robust, _ = qr_loss(V, U, _sa.W, _sa.H)
+        return train_mse, test_mse, factor_n, q_true, q_robust
 
     def run(self, samples: int = 200, min_factors: int = 2, max_factors: int = 15, max_iterations: int = 2000,
             converge_delta: float = 1.0, converge_n: int = 10):
-- 
2.43.0


From bada5ae96c5441c046c8ae44b89958ea542015c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 056/141] fix: factor estimation rounded the errors of small
 valued data to zero

---
 esat/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 798eb77..468a094 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -84,8 +84,8 @@ class FactorEstimator:
         train_residuals = np.multiply(mask, s_residuals)
 
         test_residuals = np.multiply(i_mask, s_residuals)
-        train_mse = np.round(train_residuals.sum()/m_train, 5)
-        test_mse = np.round(test_residuals.sum()/m_test, 5)
+        train_mse = train_residuals.sum()/m_train
+        test_mse = test_residuals.sum()/m_test
         q_true = q_loss(V, U, _sa.W, _sa.H)
         q_robust, _ = qr_loss(V, U, _sa.W, _sa.H)
         return train_mse, test_mse, factor_n, q_true, q_robust
-- 
2.43.0


From c941529ad6b6abc8989276f58ad92f93d3261e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 057/141] fix: factor estimation gave no estimate when a factor
 count had no sample and failed for a single count

---
 esat/estimator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 468a094..486b87d 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -162,15 +162,14 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
-        ratio_delta = [np.nan]
+        c = 1.01 * np.nanmax(delta_mse_r) if not np.all(np.isnan(delta_mse_r)) else np.nan
+        ratio_delta = [np.nan] * len(self.test_mse)
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
             # rd = (delta_mse_r[factor_n]/min1) / np.abs(max1 - c * delta_mse_r[factor_n + 1])
-            ratio_delta.append(rd)
-        ratio_delta.append(np.nan)
+            ratio_delta[factor_n + 1] = rd
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From bb2dacbf57e43a27b07de90b69ab77c2968ed731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 058/141] fix: factor estimation failed on a single core
 machine

---
 esat/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 486b87d..3885b58 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -137,7 +137,7 @@ class FactorEstimator:
             mask = self._get_mask(threshold=self.test_percent)
             pool_parameters.append((self.V, self.U, mask, seed_i, factor_i, max_iterations, converge_delta, converge_n))
 
-        pool = mp.Pool(os.cpu_count()-1)
+        pool = mp.Pool(max(1, os.cpu_count()-1))
         results = []
         for p_parameter in pool_parameters:
             r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
-- 
2.43.0


From 37d3036a60fe9912388028d8a5c1802e21e78744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 059/141] fix: a simulator with a single factor could not be
 created

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..00bbcc6 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -147,7 +147,7 @@ class Simulator:
             factor_list = list(range(self.factors_n))
             for i in range(self.features_n):
                 # the number of factors which contribute to current feature
-                factor_features_n = self.rng.integers(1, self.factors_n, 1)
+                factor_features_n = self.rng.integers(1, max(2, self.factors_n), 1)
                 # the specific factors which contribute to current feature
                 factor_feature_selected = self.rng.choice(factor_list, size=factor_features_n, replace=False)
                 for j in factor_feature_selected:
-- 
2.43.0


From 5115c8da62277f8cb4f0d7228cdd0b45a31f4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 060/141] fix: the simulator changed the custom profile matrix
 of the caller

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 00bbcc6..22c1154 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From 40feca0adb5052cbe6e8addf1b56f28699d40fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 061/141] fix: the robust loss of the synthetic solution was a
 tuple

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 22c1154..3ccd066 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -290,7 +290,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From e787ea48e5fb2919f82bc618fefa451520ef2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 062/141] fix: periodic contributions with many periods and
 logistic ones with less than one could not be created

---
 eval/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 3ccd066..99ca3bc 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
             n_periods = int(1.0/frequency) + 1
             for i in range(0, n_periods+1):
                 if i == n_periods:
-                    steps = self.samples_n - (2 * int(self.samples_n/n_periods))
+                    steps = max(0, self.samples_n - (2 * int(self.samples_n/n_periods)))
                 else:
                     steps = int(self.samples_n/n_periods)
                 if i % 2 == 0:
@@ -216,8 +216,8 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
+            curve_a = np.linspace(-np.pi, np.pi, max(3, int(self.samples_n / n_periods)))
+            curve_x = np.tile(curve_a[0:len(curve_a) - 1], int(np.ceil(self.samples_n / (len(curve_a) - 1))))
             curve_x = curve_x[0:self.samples_n]
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
-- 
2.43.0


From 7fd2054737ba311ac84fc99b41f77cb73654224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 063/141] fix: uniform contributions ignored the minimum

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 99ca3bc..894ede2 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -222,7 +222,7 @@ class Simulator:
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-            curve_y = self.rng.random(size=(self.samples_n, 1)) * float(maximum)
+            curve_y = minimum + self.rng.random(size=(self.samples_n, 1)) * float(maximum - minimum)
         curve_y = curve_y[:self.samples_n]
         y_data = self.rng.normal(loc=curve_y, scale=scale, size=curve_y.shape).flatten()
         y_data[y_data <= 0.0] = 1e-12
-- 
2.43.0


From 3261900a0e1810bce45b184f633af95138639e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 064/141] fix: the synthetic data were not recalculated with a
 contribution update

---
 eval/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index 894ede2..74b5ef6 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -231,6 +231,8 @@ class Simulator:
             logger.info(f"Synthetic factor {factor_i + 1} contribution updated as a random sampling from a normal "
                         f"distribution along a {curve_type} curve.")
             logger.info(f"Frequency: {frequency}, Shape: {curve_y.shape}")
+        if self.syn_data is not None:
+            self.get_data()
 
     def _generate_data(self):
         """
-- 
2.43.0


From b85e95e329c7542d965d0b5e2cef1fe92b94d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 065/141] fix: a simulator without data failed halfway through
 a save

---
 eval/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index 74b5ef6..b18f845 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -537,6 +537,8 @@ class Simulator:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return False
         if os.path.exists(output_directory):
+            if self.syn_data_df is None:
+                self.get_data()
             file_path = os.path.join(output_directory, "esat_simulator.pkl")
             with open(file_path, "wb") as save_file:
                 pickle.dump(self, save_file)
-- 
2.43.0


From 3770e405598ddef1b32271e777253c99408d88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 066/141] fix: the reconstructions of compared models were
 scrambled

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..008e76e 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -230,11 +230,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From 32768554e33ba0c06b784d37ac083b170a27e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 067/141] fix: a batch with a failed model could not be
 compared

---
 eval/factor_comparison.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 008e76e..5b1807c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -259,7 +259,7 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -270,7 +270,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -312,7 +312,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From eda5fa613186641e9e3dfa78b863ec4a3a1e4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 068/141] fix: a factor without variation left the comparison
 without a mapping

---
 eval/factor_comparison.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 5b1807c..76659af 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -286,7 +286,7 @@ class FactorCompare:
                     wh_results[m][f"base-{i}_esat-{j}"] = r2_3
                     pbar.update()
         pbar.close()
-        best_r = 0.0
+        best_r = -1.0
         best_perm = None
         best_model = None
         best_factor_r = None
@@ -317,7 +317,7 @@ class FactorCompare:
             permutation_results = {}
             model_contribution_results = {}
             factor_contribution_results = {}
-            best_model_r = 0.0
+            best_model_r = -1.0
             factor_permutations = []
 
             for factor_i, factor in enumerate(list(permutations(prime_list, r=r))):
@@ -418,7 +418,8 @@ class FactorCompare:
         f1 = factor1.astype(float)
         f2 = factor2.astype(float)
         corr_matrix = np.corrcoef(f2, f1)
-        corr = corr_matrix[0, 1]
+        # A factor without any variation is not correlated to another factor
+        corr = np.nan_to_num(corr_matrix[0, 1])
         r_sq = corr ** 2
         return r_sq
 
-- 
2.43.0


From cf31766fe32e19bbea373e8c3e276f3a822e1df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 069/141] fix: the base loss of a comparison was computed with
 the data as uncertainty

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 76659af..3be912f 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -393,7 +393,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From a663e4a74931e6bfc287f3585a84aaf04c52bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 070/141] fix: PMF5 output could not be compared, the species
 column was taken for a factor

---
 eval/factor_comparison.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 3be912f..7fdb684 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -159,10 +159,9 @@ class FactorCompare:
                     j += 1
             pmf_profiles_df = pd.DataFrame(pmf_profiles, columns=column_labels)
             pmf_profiles_df.drop('run', axis=1, inplace=True)
+            pmf_profiles_df.set_index('species', inplace=True)
 
-        df_columns = list(pmf_profiles_df.columns)
-
-        factor_columns = df_columns[1:]
+        factor_columns = list(pmf_profiles_df.columns)
         factor_types = {}
         for f in factor_columns:
             factor_types[f] = 'float'
-- 
2.43.0


From 8c2d2f71e68c9a90079a1f8f20538b70f766e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 071/141] fix: factor comparison failed on a single core
 machine

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 7fdb684..6f99748 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -295,7 +295,7 @@ class FactorCompare:
         best_wh_r = None
         best_wh_r_avg = None
 
-        pool = mp.Pool(processes=os.cpu_count()-1)
+        pool = mp.Pool(processes=max(1, os.cpu_count()-1))
 
         if len(self.base_factors) >= len(self.sa_factors):
             prime_list = self.base_factors
-- 
2.43.0


From 2ce4a504ca8e9791e31a5a07b0181569d41857d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 072/141] fix: the factor map was transposed and not one-to-one

---
 eval/factor_comparison.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 6f99748..b40541e 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -578,29 +577,22 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
-            # Step 1, all optimal value indices are unique and no other values need to be checked.
-            if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
-                model_mapping = optimal_indices
-            else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+            # The one-to-one mapping, base model factor to model factor, with the optimal total
+            _, model_mapping = linear_sum_assignment(mapping_matrix, maximize=maximize)
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From bfda67d3acdd903b24cff4046b849f3c2677c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 073/141] fix: comparison plots of the first model showed the
 best model

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index b18f845..9d8a8d8 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -381,7 +381,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -459,7 +459,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From a745c40c62404d24cf3b1b9e8db5b015ef8119c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 074/141] fix: profile comparison plots failed for a single
 factor and for a perfect match

---
 eval/simulator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 9d8a8d8..c6683a0 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -464,7 +464,6 @@ class Simulator:
 
         factor_compare = self.factor_compare.model_results[model_i]
 
-        color_map = px.colors.sample_colorscale("plasma", [n / (self.factors_n - 1) for n in range(self.factors_n)])
         r_color_map = px.colors.sample_colorscale("jet", [n / (100 - 1) for n in range(100)])
 
         syn_H = self.syn_profiles
@@ -499,7 +498,7 @@ class Simulator:
                 go.Bar(name=f"Modelled Factor {mod_i+1}", x=self.syn_columns, y=norm_H[mod_i],
                        marker_color="green"), row=1, col=1)
             i_r2 = factor_compare['best_factor_r'][i - 1]
-            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[int(100 * i_r2)],
+            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[min(99, int(100 * i_r2))],
                                    text=np.round(i_r2, 4), textposition="inside", hoverinfo='text',
                                    hovertemplate="R2: %{x:4f}<extra></extra>", showlegend=False), row=2, col=1)
             h_fig.add_trace(
-- 
2.43.0


From b7ecc9fcc32b74321dd22975b2fcfac4d7c2529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 075/141] fix: selecting a model before the comparison raised
 after the error message

---
 eval/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index c6683a0..38f9376 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -350,6 +350,7 @@ class Simulator:
         else:
             if self.factor_compare is None:
                 logger.error("Factor compare must be completed prior to selecting a model.")
+                return
             logger.info(f"Mappings for the most selected model in the batch. Model: {selected_model}")
             self.factor_compare.print_results(model=selected_model)
 
-- 
2.43.0


From 03560cc65021992d4a4a287e9ff7608427b0d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 076/141] fix: every cell was perturbed whatever the requested
 percentage

---
 eval/perturbation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..91eb253 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -178,11 +178,10 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
             ij_u = i_u[:, i]
             ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From 3e113bd1a00493ccb16811d2e2a8cbb71852a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 077/141] fix: the perturbation correlation plot applied the
 factor mapping twice

---
 eval/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 91eb253..efefe94 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -373,8 +373,8 @@ class Perturbation:
 
         factor_corr_fig = make_subplots()
         factor_corr = np.zeros(shape=(self.models, len(factor_labels)))
-        for i, v in self.perturb_mapping.items():
-            factor_corr[i] = np.array(self.perturb_correlations[i])[v]
+        for i in self.perturb_mapping:
+            factor_corr[i] = np.array(self.perturb_correlations[i])
         for i in range(len(factor_labels)):
             i_corr_means = factor_corr[:, i]
             factor_corr_fig.add_trace(go.Box(y=i_corr_means, name=factor_labels[i]))
-- 
2.43.0


From dd096d635c762c2f3eb91a1e698d7409477c3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 078/141] fix: perturbation failed on a single core machine

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index efefe94..343a3c0 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -118,7 +118,7 @@ class Perturbation:
             sa_model.initialize()
             sa_model.train(max_iter=self.max_iterations, converge_delta=self.converge_delta, converge_n=self.converge_n)
             self.base_model = sa_model
-        cores = int(mp.cpu_count() * 0.75)
+        cores = max(1, int(mp.cpu_count() * 0.75))
         pool = mp.Pool(processes=cores)
         parallel_args = [(i, self.rng.integers(0, 1e5)) for i in range(self.models)]
 
-- 
2.43.0


From 0575a90408c74ab977d59d03a3e3d3a59a519fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 079/141] fix: an integer perturbation percentage or sigma
 raised

---
 eval/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 343a3c0..dafecb0 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -165,11 +165,11 @@ class Perturbation:
         i_u = copy.copy(self.U)
         sigma = self.sigma
         perturb_p = self.perturb_percent
-        if isinstance(self.perturb_percent, float):
+        if np.isscalar(self.perturb_percent):
             perturb_p = [self.perturb_percent for i in range(self.U.shape[1])]
         elif isinstance(self.perturb_percent, list) and len(self.perturb_percent) != self.U.shape[1]:
             perturb_p = [self.perturb_percent[0] for i in range(self.U.shape[1])]
-        if isinstance(self.sigma, float):
+        if np.isscalar(self.sigma):
             sigma = [self.sigma for i in range(self.U.shape[1])]
         elif isinstance(self.sigma, list) and len(self.sigma) != self.U.shape[1]:
             sigma = [self.sigma[0] for i in range(self.U.shape[1])]
-- 
2.43.0


From 7cdd5aa3f562893fe20a315d38e41e1e96ef88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 080/141] fix: the perturbed profile table held the second
 factor only and failed for a single factor

---
 eval/perturbation.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index dafecb0..b8e1e09 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -255,19 +255,21 @@ class Perturbation:
         min_perturb_H = np.min(self.perturb_H, axis=2)
         max_perturb_H = np.max(self.perturb_H, axis=2)
 
-        factor_i = 1
-        f1_dict = {
-            "Base": base_H[factor_i],
-            "Mean Perturb": mean_perturb_H[factor_i],
-            "% diff": np.round(100 * (mean_perturb_H[factor_i] - base_H[factor_i]) / (
-                        (mean_perturb_H[factor_i] + base_H[factor_i]) / 2), 4),
-            "STD Perturb": std_perturb_H[factor_i],
-            "Min Perturb": min_perturb_H[factor_i],
-            "Max Perturb": max_perturb_H[factor_i],
-        }
-        f1_dict["% diff"][f1_dict["Mean Perturb"] < 1e-6] = 0.0
         feature_labels = [f"Feature {i + 1}" for i in range(base_H.shape[1])]
-        self.perturbed_H_df = pd.DataFrame(f1_dict, index=feature_labels).round(10)
+        factor_dfs = {}
+        for factor_i in range(base_H.shape[0]):
+            f1_dict = {
+                "Base": base_H[factor_i],
+                "Mean Perturb": mean_perturb_H[factor_i],
+                "% diff": np.round(100 * (mean_perturb_H[factor_i] - base_H[factor_i]) / (
+                            (mean_perturb_H[factor_i] + base_H[factor_i]) / 2), 4),
+                "STD Perturb": std_perturb_H[factor_i],
+                "Min Perturb": min_perturb_H[factor_i],
+                "Max Perturb": max_perturb_H[factor_i],
+            }
+            f1_dict["% diff"][f1_dict["Mean Perturb"] < 1e-6] = 0.0
+            factor_dfs[f"Factor {factor_i + 1}"] = pd.DataFrame(f1_dict, index=feature_labels).round(10)
+        self.perturbed_H_df = pd.concat(factor_dfs)
         logger.info("\nPerturbed H Results")
         logger.info(self.perturbed_H_df)
         logger.info(
-- 
2.43.0


From cd52549aa2ad5fc2000a1f12b51963e1f84648a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 081/141] fix: a factor with a given threshold had none

---
 eval/factor_catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..d775356 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -39,6 +39,8 @@ class Factor:
                 self.threshold = 0.1
             else:
                 self.threshold = 0.9
+        else:
+            self.threshold = threshold
 
     def __repr__(self):
         return f"Factor: {self.name}, Count: {len(self.model)}, Mean Corr: {np.round(np.mean(self.correlation),4)}, Method: {self.method}"
-- 
2.43.0


From 0617dad1c025da97258cde8a073abebc8b609647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 082/141] fix: the catalog miscounted its models

---
 eval/factor_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index d775356..7aaa5c6 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -287,7 +287,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
+        if self.model_count <= model_index:
             self.model_count = model_index+1
         add_new = False
         if self.idx == 0:
-- 
2.43.0


From 0593bc9468316dc691595d783ca9c5389788033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 083/141] fix: the catalog needed the notebook progress bar,
 which is no dependency

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 7aaa5c6..eb0ecfb 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 import pandas as pd
-from tqdm.notebook import tqdm, tnrange
+from tqdm.auto import tqdm, trange
 from esat_eval.factor_comparison import FactorCompare
 
 logger = logging.getLogger(__name__)
@@ -337,7 +337,7 @@ class FactorCatalog:
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
-        for i in tnrange(len(batch_results.results), desc="Analyzing Models", leave=True):
+        for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
-- 
2.43.0


From 708a0e1a674bcf6c069391d55a81c49334c24d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 084/141] fix: profiles were filed into the least similar entry
 with raae, and factors without a match raised

---
 eval/factor_catalog.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index eb0ecfb..bccd2fc 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -230,10 +230,12 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        # The relative error of the contributions is smaller for better matches, correlations are larger
+        lower = self.method == "raae" and not profile_only
+        best_corr = float("inf") if lower else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
-            if self.method == "raae":
+            if lower:
                 if corr < best_corr:
                     best_corr = corr
                     best_factor = f_label
@@ -293,7 +295,9 @@ class FactorCatalog:
         if self.idx == 0:
             add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
-        if self.method == "raae":
+        if best_factor is None:
+            add_new = True
+        elif self.method == "raae" and not profile_only:
             if best_corr > self.threshold:
                 add_new = True
         else:
-- 
2.43.0


From 192bc524fa24483be17babcefb86ff0569663fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 085/141] fix: comparing a factor to the catalog took the
 largest error for the best match

---
 eval/factor_catalog.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index bccd2fc..fb23bd1 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -393,16 +393,18 @@ class FactorCatalog:
         float
             The correlation of the most correlated factor in the catalog
         """
+        profile_only = any(len(fi[1]) != f.samples for f in self.factors.values() for fi in factor.factor)
+        lower = self.method == "raae" and not profile_only
         best_factor = None
-        best_corr = 0.0
+        best_corr = float("inf") if lower else 0.0
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
             for fi in tqdm(factor.factor, desc="Comparing Factor Members", leave=False):
-                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
+                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=profile_only)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            if mean_corr < best_corr if lower else mean_corr > best_corr:
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From 403c7f66288a082de2c79a61ea46a35d1e61225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 086/141] fix: a batch with a failed model could not be
 catalogued

---
 eval/factor_catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index fb23bd1..69db9ff 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -337,12 +337,16 @@ class FactorCatalog:
         if self.exclude_outliers:
             loss_list = []
             for model in batch_results.results:
+                if model is None:
+                    continue
                 loss_list.append(model.Qtrue)
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
         for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
+            if model is None:
+                continue
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
                     continue
-- 
2.43.0


From bb067d3976b593fc8d30c00d6b6e7acdad975548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 087/141] fix: perturbing an integer uncertainty matrix
 truncated the perturbed values

---
 eval/perturbation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index b8e1e09..8d47c27 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -1,4 +1,3 @@
-import copy
 import logging
 
 import numpy as np
@@ -162,7 +161,7 @@ class Perturbation:
 
         """
         rng = np.random.default_rng(seed=random_seed)
-        i_u = copy.copy(self.U)
+        i_u = np.array(self.U, dtype=float)
         sigma = self.sigma
         perturb_p = self.perturb_percent
         if np.isscalar(self.perturb_percent):
-- 
2.43.0


From 25e43693f0230b40d0a328fa1c41154bb6561ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:45 +0000
Subject: [PATCH 088/141] fix: catalog occurrences were relative to the highest
 model index, counting excluded and failed models depending on their position

---
 eval/factor_catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 69db9ff..254869c 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -178,6 +178,7 @@ class FactorCatalog:
         self.outlier_threshold = outlier_threshold
         self.method = method
         self.idx = 0
+        self.models = set()     # The indices of the cataloged models
         self.model_count = 0
 
     def summary(self):
@@ -289,8 +290,8 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count <= model_index:
-            self.model_count = model_index+1
+        self.models.add(model_index)
+        self.model_count = len(self.models)
         add_new = False
         if self.idx == 0:
             add_new = True
-- 
2.43.0


From 1737862877da084dc0367eeae48d8bb0cb7ec5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 089/141] fix: the minimum time step was not returned, ignored
 the last samples and took hourly data for daily

---
 esat/utils.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..6946196 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -42,17 +42,20 @@ def min_timestep(data: pd.DataFrame):
     int
         Minimum timestep.
     """
-    time_delta = data.index[1: -1] - data.index[0:-2]
-    if time_delta.min().days >= 1:
-        resample = f"{int(time_delta.min().days)}D"
-    elif time_delta.min().seconds < 60:
-        resample = f"{time_delta.min().seconds}s"
-    elif time_delta.min().seconds < 60 * 60:
-        resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
-        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
-    else:
+    time_delta = data.index[1:] - data.index[:-1]
+    time_delta = time_delta[time_delta > pd.Timedelta(0)]
+    if len(time_delta) == 0:
         return "D"
+    min_delta = time_delta.min()
+    if min_delta.days >= 1:
+        resample = f"{int(min_delta.days)}D"
+    elif min_delta.seconds < 60:
+        resample = f"{max(1, min_delta.seconds)}s"
+    elif min_delta.seconds < 60 * 60:
+        resample = f"{int(min_delta.seconds / 60)}min"
+    else:
+        resample = f"{int(min_delta.seconds / (60 * 60))}h"
+    return resample
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From 672e2d7c1d60d54cdc7de852273dd2d9bff144a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 090/141] fix: plots paired samples with other samples or
 failed for long series, dropped rows, excluded features, location columns and
 failed models

---
 esat/data/analysis.py    | 17 ++++++------
 esat/data/datahandler.py | 57 +++++++++++++++-------------------------
 2 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..87e75cc 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -67,7 +67,7 @@ class ModelAnalysis:
         # sum of aggregated factors, into v_prime (same dimensions as V)
         factor_vprime = sum([agg_df.values for agg_df in factor_agg.values()])
         factor_vprime = pd.DataFrame(factor_vprime, columns=self.dh.input_data_df.columns,
-                                     index=self.dh.input_data_df.index)
+                                     index=factor_agg[0].index)
         self.V_prime_plot = factor_vprime
         self.V_prime_k = factor_agg
         return factor_agg, factor_vprime
@@ -302,7 +302,7 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature]
+        observed_data = self.dh.aggregate_output(self.dh.input_data_df.to_numpy())[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
         # Perform regression
@@ -368,11 +368,11 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature].values
+        observed_data = self.dh.aggregate_output(self.dh.input_data_df.to_numpy())[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
-        data_df = pd.DataFrame(data={"observed": observed_data, "predicted": predicted_data},
-                               index=self.dh.input_data_plot.index)
+        data_df = pd.DataFrame(data={"observed": observed_data.values, "predicted": predicted_data.values},
+                               index=observed_data.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
         data_df = data_df.resample(min_timestep(data_df)).mean()
@@ -1004,13 +1004,14 @@ class BatchAnalysis:
 
         if self.data_handler is None:
             V = self.batch_sa.V
-            V_primes = [r.WH for r in self.batch_sa.results if r is not None]
+            V_primes = [r.WH if r is not None else None for r in self.batch_sa.results]
             features = [f"Feature {i + 1}" for i in range(V.shape[1])]
             x = list(range(1, V.shape[0] + 1))
             feature_label = features[feature_idx]
             col_idx = feature_idx
         else:
-            V = self.data_handler.input_data_plot.values
+            input_plot = self.data_handler.aggregate_output(self.data_handler.input_data_df.to_numpy())
+            V = input_plot.values
             if len(self.aggregated_output) == 0:
                 for i, r in enumerate(self.batch_sa.results):
                     if r is not None:
@@ -1019,7 +1020,7 @@ class BatchAnalysis:
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
             col_idx = feature_idx
-            x = self.data_handler.input_data_plot.index
+            x = input_plot.index
 
         temporal_fig = go.Figure()
         # Add input trace
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 1772a7f..dd097b1 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -445,55 +445,40 @@ class DataHandler:
     def _aggregate_data(self):
         """
         Aggregate input and uncertainty data for plotting if sample count exceeds max_plotting_n.
-        Stores aggregation bins/labels for reuse.
         """
-        self._agg_bins = {}
-        self._agg_labels = {}
         if self.input_data is None or self.uncertainty_data is None:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
             return
         n_samples = len(self.input_data)
-        if n_samples <= self.max_plotting_n:
-            self.input_data_plot = self.input_data
-            self.uncertainty_data_plot = self.uncertainty_data
-            return
-        bins = np.linspace(0, 1, self.max_plotting_n + 1)
-        agg_input = pd.DataFrame()
-        agg_uncertainty = pd.DataFrame()
-        for col in self.input_data.columns:
-            quantiles = self.input_data[col].quantile(bins)
-            labels = range(self.max_plotting_n)
-            binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
-            agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
-                drop=True)
-            self._agg_bins[col] = quantiles
-            self._agg_labels[col] = labels
-        self.input_data_plot = agg_input
-        self.uncertainty_data_plot = agg_uncertainty
-        logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
+        self.input_data_plot = self._aggregate_samples(self._drop_non_features(self.input_data))
+        self.uncertainty_data_plot = self._aggregate_samples(self._drop_non_features(self.uncertainty_data))
+        if n_samples > self.max_plotting_n:
+            logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to "
+                        f"{len(self.input_data_plot)} samples.")
+
+    def _aggregate_samples(self, data: pd.DataFrame) -> pd.DataFrame:
+        """
+        The means of the bins of consecutive samples, at most max_plotting_n bins, indexed by the first sample of each
+        bin. The bins are the same for all datasets of the same length.
+        """
+        if len(data) <= self.max_plotting_n:
+            return data
+        bin_size = math.ceil(len(data) / self.max_plotting_n)
+        aggregated = data.groupby(np.arange(len(data)) // bin_size).mean()
+        aggregated.index = data.index[::bin_size]
+        return aggregated
 
     def aggregate_output(self, output_array: np.ndarray) -> pd.DataFrame:
         """
-        Aggregate an output numpy array using the same bins/labels as used in _aggregate_data.
+        Aggregate an output numpy array using the same bins as used in _aggregate_data.
         Returns a pandas DataFrame.
         """
-        if not hasattr(self, "_agg_bins") or not hasattr(self, "_agg_labels"):
-            logger.error("No aggregation bins/labels found. Run _aggregate_data first.")
-            # Fallback: return as DataFrame with feature names
-            return pd.DataFrame(output_array, columns=self.features)
         # Convert array to DataFrame with correct columns
         output_df = pd.DataFrame(output_array, columns=self.features)
-        agg_output = pd.DataFrame()
-        for col in output_df.columns:
-            if col in self._agg_bins:
-                binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
-                                duplicates='drop')
-                agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            else:
-                agg_output[col] = output_df[col]
-        return agg_output
+        if self.input_data_df is not None and len(output_df) == len(self.input_data_df):
+            output_df.index = self.input_data_df.index
+        return self._aggregate_samples(output_df)
 
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
-- 
2.43.0


From 59d2f3fd78aadb1f4e1eb9870c3a241984e65fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 091/141] fix: the RMSE of a feature was not the root of the
 mean squared residual

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 87e75cc..002f30b 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(float(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2))), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From e9c2e8e59714026e8a1b383f6e2b9c5885ff5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 092/141] fix: the residual statistics used the unprocessed
 uncertainty, with other rows and columns than the model

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 002f30b..f6544c6 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From 5f748542a401197a077535f36c00863041e44a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 093/141] fix: a contribution threshold above 50 was accepted

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index f6544c6..52bed86 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -772,7 +772,7 @@ class ModelAnalysis:
         if feature_idx > self.dh.input_data_df.shape[1] - 1 or feature_idx < 0:
             logger.info(f"Invalid feature index provided, must not be negative and be less than {self.dh.input_data_df.shape[1]-1}")
             return
-        if 50.0 > contribution_threshold < 0:
+        if not 0.0 <= contribution_threshold <= 50.0:
             logger.info(f"Invalid contribution threshold provided, must be between 0.0 and 50.0")
             return
         x_label = self.dh.input_data_df.columns[feature_idx]
-- 
2.43.0


From cccc1c7a28ab9f783bfaebc08d8aed91940b8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 094/141] fix: the 3D factor plot of both types raised

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 52bed86..2002a64 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -640,7 +640,7 @@ class ModelAnalysis:
         # Add 3D bar graphs for "Conc. of Features"
         if plot_type.lower() in ["conc", "both"]:
             fig.add_trace(_create_mesh3d(conc_z, "Conc. of Features"))
-        else:
+        if plot_type.lower() != "conc":
             # Add 3D bar graphs for "% of Features"
             fig.add_trace(_create_mesh3d(percent_z, "% of Features"))
         if plot_type.lower() == "both":
-- 
2.43.0


From 6b511fbb16d572468d0d8d384a269bf077729e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 095/141] fix: the factor surface percentage was a fraction of
 the input data, not a percentage of the sum of all factors

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 2002a64..ef5d59c 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -882,7 +882,7 @@ class ModelAnalysis:
             fH = self.model.H[f]
             f_matrix = np.multiply(fW, fH)
             factor_matrices.append(f_matrix)
-            percent_matrices.append(f_matrix / self.model.V)
+            percent_matrices.append(100 * f_matrix / self.model.WH)
 
         _y = self.dh.input_data_df.index
         z_title = "Percentage (%)" if percentage else "Mass"
-- 
2.43.0


From c0ec8eb05c63bef16ca38fff6b7911eaccdaaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 096/141] fix: the figures of a model outside a batch raised

---
 esat/data/analysis.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index ef5d59c..73576a5 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -46,6 +46,13 @@ class ModelAnalysis:
         self.V_prime_k = None
         self.V_prime_plot = None
 
+    @property
+    def model_label(self):
+        """
+        The label of the model in plot titles, numbered when the model is part of a batch.
+        """
+        return "Model" if self.selected_model is None else f"Model {self.selected_model + 1}"
+
     def aggregate_factors_for_plotting(self):
         """
         Aggregate each factor's V_prime_k for plotting, reducing to max_samples using DataHandler's binning.
@@ -387,7 +394,7 @@ class ModelAnalysis:
                                         line=dict(width=1), mode='lines', name="Residuals"), row=2, col=1)
 
         ts_subplot.update_layout(
-            title=f"Estimated Time-series for {feature} - Model {self.selected_model+1}",
+            title=f"Estimated Time-series for {feature} - {self.model_label}",
             width=1200,
             height=800,
             yaxis_title="Concentrations",
@@ -464,7 +471,7 @@ class ModelAnalysis:
                                   range=[0, np.log10(factor_conc_sums).max()]
                                   )
         profile_plot.update_yaxes(title_text="% of Features", secondary_y=True, row=1, col=1, range=[0, 100])
-        profile_plot.update_layout(title=f"Factor Profile - Model {self.selected_model+1} - Factor {factor_idx_l}",
+        profile_plot.update_layout(title=f"Factor Profile - {self.model_label} - Factor {factor_idx_l}",
                                    width=1200, height=600, hovermode='x unified')
         if show:
             profile_plot.show()
@@ -472,7 +479,7 @@ class ModelAnalysis:
         contr_plot = go.Figure()
         contr_plot.add_trace(go.Scatter(x=data_df.index, y=data_df[factor_label], mode='lines+markers',
                                         name="Normalized Contributions", line=dict(color='blue')))
-        contr_plot.update_layout(title=f"Factor Contributions - Model {self.selected_model+1} - Factor {factor_idx_l}",
+        contr_plot.update_layout(title=f"Factor Contributions - {self.model_label} - Factor {factor_idx_l}",
                                  width=1200, height=600, showlegend=True,
                                  legend=dict(orientation="h", xanchor="right", yanchor="bottom", x=1, y=1.02))
         contr_plot.update_yaxes(title_text="Normalized Contributions")
@@ -532,7 +539,7 @@ class ModelAnalysis:
                              range=[0, np.log10(factor_conc_sums).max()], secondary_y=False, row=factor_idx + 1, col=1)
             fig.update_yaxes(title_text="% of Features", range=[0, 100], secondary_y=True, row=factor_idx + 1, col=1)
 
-        fig.update_layout(title=f"Factor Profiles - Model {self.selected_model+1}", width=1200, height=600 * num_factors,
+        fig.update_layout(title=f"Factor Profiles - {self.model_label}", width=1200, height=600 * num_factors,
                           hovermode='x unified')
         if show:
             fig.show()
@@ -700,7 +707,7 @@ class ModelAnalysis:
         fig = go.Figure()
         for idx in range(self.model.factors-1, -1, -1):
             fig.add_trace(go.Bar(name=f"Factor {idx+1}", x=self.dh.features, y=normalized_factors_data[idx]))
-            fig.update_layout(title=f"Factor Fingerprints - Model {self.selected_model+1}",
+            fig.update_layout(title=f"Factor Fingerprints - {self.model_label}",
                               width=1200, height=800, barmode='group' if grouped else 'stack',
                               hovermode='x unified')
         fig.update_yaxes(title_text="% Feature Concentration", range=[0, 100])
@@ -743,7 +750,7 @@ class ModelAnalysis:
             x=normalized_factors_contr[:, f1_idx],
             y=normalized_factors_contr[:, f2_idx], mode='markers')
         )
-        fig.update_layout(title=f"G-Space Plot - Model {self.selected_model+1}", width=800, height=800)
+        fig.update_layout(title=f"G-Space Plot - {self.model_label}", width=800, height=800)
         fig.update_yaxes(title_text=f"Factor {factor_2} Contributions (avg=1)")
         fig.update_xaxes(title_text=f"Factor {factor_1} Contributions (avg=1)")
         if show:
@@ -792,7 +799,7 @@ class ModelAnalysis:
                 feature_legend[f"Factor {idx_l}"] = f"Factor {idx_l} = {factors_data[idx:, feature_idx]}"
         feature_fig = go.Figure(data=[go.Pie(labels=feature_contr_labels, values=feature_contr_inc,
                                              hoverinfo="label+value", textinfo="percent")])
-        feature_fig.update_layout(title=f"Factor Contributions to Feature: {x_label} - Model {self.selected_model+1}", width=1200, height=600,
+        feature_fig.update_layout(title=f"Factor Contributions to Feature: {x_label} - {self.model_label}", width=1200, height=600,
                                   legend_title_text=f"Factor Contribution > {contribution_threshold}%")
         if show:
             feature_fig.show()
@@ -809,7 +816,7 @@ class ModelAnalysis:
         for factor in factor_labels:
             contr_fig.add_trace(go.Scatter(x=contr_df.index, y=contr_df[factor], mode='lines+markers', name=factor))
         converged = "Converged Model" if self.model.converged else "Unconverged Model"
-        contr_fig.update_layout(title=f"Factor Contributions (avg=1) From Base Model #{self.selected_model+1} ({converged})",
+        contr_fig.update_layout(title=f"Factor Contributions (avg=1) From Base {self.model_label} ({converged})",
                                 width=1200, height=600, hovermode='x unified',
                                 legend=dict(orientation="h", xanchor="right", yanchor="bottom", x=1, y=1.02))
         contr_fig.update_yaxes(title_text="Normalized Contribution")
-- 
2.43.0


From 5af2acd06654728de0e28263ff7f993e1531a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 097/141] fix: contributions labelled as normalized to an
 average of 1 were not

---
 esat/data/analysis.py          | 4 ++--
 esat/rotational/constrained.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 73576a5..3a3c17f 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -743,7 +743,7 @@ class ModelAnalysis:
             return
 
         factors_contr = self.model.W
-        normalized_factors_contr = factors_contr / factors_contr.sum(axis=0)
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         f1_idx = factor_1 - 1
         f2_idx = factor_2 - 1
         fig = go.Figure(data=go.Scatter(
@@ -805,7 +805,7 @@ class ModelAnalysis:
             feature_fig.show()
 
         factors_contr = self.model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1]+1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 8937cac..f7bfc64 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1070,8 +1070,8 @@ class ConstrainedModel:
         b_W = self.base_model.W
         c_W = self.constrained_model.W
 
-        b_normalized_factors_contr = b_W / b_W.sum(axis=0)
-        c_normalized_factors_contr = c_W / c_W.sum(axis=0)
+        b_normalized_factors_contr = b_W / b_W.mean(axis=0)
+        c_normalized_factors_contr = c_W / c_W.mean(axis=0)
 
         if show_delta:
             arrows = ((c_normalized_factors_contr[:, f1_idx] - b_normalized_factors_contr[:, f1_idx]),
@@ -1140,7 +1140,7 @@ class ConstrainedModel:
         feature_fig.show()
 
         factors_contr = self.constrained_model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data.index)
-- 
2.43.0


From 7287dc98b4a987da772877974c1b7d405fe6ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 098/141] fix: the axes of the constrained g-space plot were
 labelled with each other's factor

---
 esat/rotational/constrained.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index f7bfc64..96cc781 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1089,14 +1089,14 @@ class ConstrainedModel:
             fp_g_fig = go.Figure()
             fp_g_fig.add_trace(
                 go.Scatter(x=c_normalized_factors_contr[:, f1_idx], y=c_normalized_factors_contr[:, f2_idx],
-                           mode='markers', name="Fpeak"))
+                           mode='markers', name="Constrained"))
             if show_base:
                 fp_g_fig.add_trace(
                     go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx],
                                mode='markers', name="Base"))
         fp_g_fig.update_layout(title=f"Constrained G-Space Plot", width=800, height=800)
-        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
-        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
         fp_g_fig.show()
 
     def plot_factor_contributions(self, feature_idx, threshold: float = 0.06):
-- 
2.43.0


From 5257c2bbf744f4013bdcffa662407b2f4e5134e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 099/141] fix: the constrained contribution plots used the
 unprocessed data, with other rows and columns than the model

---
 esat/rotational/constrained.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 96cc781..55e3dd7 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -988,15 +988,13 @@ class ConstrainedModel:
         i_W = self.constrained_model.W[:, factor_idx]
 
         b_norm_contr = b_W / b_W.mean()
-        b_data_df =  copy.copy(self.dh.input_data)
-        b_data_df[factor_label] = b_norm_contr
+        b_data_df = pd.DataFrame({factor_label: b_norm_contr}, index=self.dh.input_data_df.index)
         b_data_df.index = pd.to_datetime(b_data_df.index)
         b_data_df = b_data_df.sort_index()
         b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
 
         i_norm_contr = i_W / i_W.mean()
-        i_data_df =  copy.copy(self.dh.input_data)
-        i_data_df[factor_label] = i_norm_contr
+        i_data_df = pd.DataFrame({factor_label: i_norm_contr}, index=self.dh.input_data_df.index)
         i_data_df.index = pd.to_datetime(i_data_df.index)
         i_data_df = i_data_df.sort_index()
         i_data_df = i_data_df.resample(min_timestep(i_data_df)).mean()
@@ -1118,7 +1116,7 @@ class ConstrainedModel:
             feature_idx = feature_idx - 1
         else:
             feature_idx = 0
-        x_label = self.dh.input_data.columns[feature_idx]
+        x_label = self.dh.input_data_df.columns[feature_idx]
         factors_data = self.constrained_model.H
         normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
 
@@ -1143,7 +1141,7 @@ class ConstrainedModel:
         normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
-        contr_df.index = pd.to_datetime(self.dh.input_data.index)
+        contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
         contr_df = contr_df.sort_index()
         contr_df = contr_df.resample(min_timestep(contr_df)).mean()
 
-- 
2.43.0


From e3bb462fc54908dbf6990d047d7ea5875fddfe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 100/141] fix: the constrained fingerprints raised for more
 than ten factors

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 55e3dd7..bcb56d0 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1027,11 +1027,11 @@ class ConstrainedModel:
         colors = px.colors.sequential.Viridis_r
         for idx in range(self.base_model.factors - 1, -1, -1):
             fp_factors_fig.add_trace(go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=b_normalized[idx],
-                                            marker_color=colors[idx], hovertext="Base", legendgroup=f"group{idx}",
+                                            marker_color=colors[idx % len(colors)], hovertext="Base", legendgroup=f"group{idx}",
                                             showlegend=False), row=1, col=1)
             fp_factors_fig.add_trace(
                 go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=c_normalized[idx],
-                       marker_color=colors[idx], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
+                       marker_color=colors[idx % len(colors)], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
         fp_factors_fig.update_layout(title=f"Constrained Factor Fingerprints", width=1200, height=800,
                                      barmode='stack', hovermode='x unified')
         fp_factors_fig.update_yaxes(title_text="% Feature Concentration", range=[0, 100])
-- 
2.43.0


From 518797f0c37bd85c11fab420a141785537448853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 101/141] fix: constrained features were not highlighted in the
 profile plot

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index bcb56d0..1b6ab38 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -951,7 +951,7 @@ class ConstrainedModel:
                     marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
         # Highlight the factor feature elements which were constrained
         for c_key, constraint in self.constraints.items():
-            if constraint.constraint_type == "feature" and constraint.index[0] == factor_idx:
+            if constraint.target == "feature" and constraint.index[0] == factor_idx:
                 marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
 
         fig = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
-- 
2.43.0


From f61088add2100d6ce3f26151ea7ec68b2b9a2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 102/141] fix: a feature index of the time series plot was
 wrapped by the number of samples

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index dd097b1..9ecb7a1 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -635,7 +635,7 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[0]
+            feature_selection = feature_selection % self.input_data_plot.shape[1]
             feature_selection = self.input_data_plot.columns[feature_selection]
             feature_label = [feature_selection]
         else:
-- 
2.43.0


From bbdfd43d45adaa818dee69b4a3ed975632955255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 103/141] fix: the profile plot computed the highlights of
 constrained features and did not show them

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1b6ab38..b5a5f2a 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -963,7 +963,7 @@ class ConstrainedModel:
                              marker_line_color='rgb(186,186,186)', marker_line_width=1.5, opacity=0.6,
                              name='Base Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.add_trace(go.Bar(x=self.dh.features, y=i_factor_conc_sum, marker_color='rgb(134,236,168)',
-                             marker_line_color='rgb(125,220,157)', marker_line_width=1.5, opacity=0.6,
+                             marker_line_color=marker_line_colors, marker_line_width=1.5, opacity=0.6,
                              name='Constrained Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.update_layout(width=1200, height=600, title=f"Constrained Factor Profile - Factor {factor_label}",
                           barmode='group', scattermode='group', hovermode="x unified")
-- 
2.43.0


From 051387e45c7129847bfce72e9bd767beaba1e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 104/141] fix: a pickled constrained model lost its
 constraints, expressions and base model

---
 esat/rotational/constrained.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b5a5f2a..e2a1c1e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1178,11 +1178,17 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            file_path = self.constrained_model.save(
-                model_name=model_name,
-                output_directory=output_directory,
-                pickle_model=pickle_model,
-                header=self.dh.features)
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                with open(file_path, "wb") as save_file:
+                    pickle.dump(self, save_file)
+                    logger.info(f"Constrained model saved to pickle file: {file_path}")
+            else:
+                file_path = self.constrained_model.save(
+                    model_name=model_name,
+                    output_directory=output_directory,
+                    pickle_model=pickle_model,
+                    header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
             metadata = self.metadata
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
-- 
2.43.0


From 6718b454359d711d6230db2f4167315e4ac11e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 105/141] fix: the constrained solution replaced the zeros of
 its profiles and no longer gave its loss

---
 esat/rotational/constrained.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index e2a1c1e..70c700f 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -542,6 +542,8 @@ class ConstrainedModel:
         self.constrained_model = SA(V=V, U=U, factors=self.base_model.factors, method=self.base_model.method,
                                     seed=self.base_model.seed)
         self.constrained_model.initialize(H=H_i, W=W_i)
+        # Initializing replaces zeros of H, the solution keeps them
+        self.constrained_model.H = H_i
         self.constrained_model.WH = np.matmul(W_i, H_i)
         self.constrained_model.metadata["max_iterations"] = max_iterations
         self.constrained_model.metadata["converge_delta"] = converge_delta
-- 
2.43.0


From deaaa80db0c851498b14f42f71f4c1fc833e9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 106/141] fix: the first column is the index column when no
 index column is specified

---
 esat/data/datahandler.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 9ecb7a1..f7adba9 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -357,16 +357,12 @@ class DataHandler:
 
         """
         ext = filepath.split(".")[-1]
+        # the first column is the index column when none is specified
+        index_col = index_col if index_col else 0
         if ext in ["csv", "txt"]:
-            if index_col:
-                data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
-            else:
-                data = pd.read_csv(filepath, sep=None, engine="python")
+            data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
         elif ext in ["xls", "xlsx"]:
-            if index_col:
-                data = pd.read_excel(filepath, index_col=index_col)
-            else:
-                data = pd.read_excel(filepath)
+            data = pd.read_excel(filepath, index_col=index_col)
         else:
             logger.warning(f"Unknown file type provided. Ext: {ext}, file: {filepath}")
             #TODO: Add custom exception for unknown file types.
-- 
2.43.0


From 3a71c86db9508927e011cb3291fb5bab4d14e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 107/141] fix: the command line reads the configured index
 column position

---
 esat/cli/esat_cli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..2921f96 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -34,6 +34,8 @@ except importlib.metadata.PackageNotFoundError as ex:
 
 
 def get_dh(input_path, uncertainty_path, index_col):
+    # configuration values are text, a number is the position of the index column
+    index_col = int(index_col) if index_col.isdigit() else index_col
     dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
     return dh
 
@@ -75,7 +77,7 @@ def get_batchsa(project_directory):
 
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
@@ -376,7 +378,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_data_uncertainty(feature_idx=feature_idx)
 
 
@@ -396,7 +398,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_data(x_idx=feature_idx1, y_idx=feature_idx2)
 
 
@@ -414,7 +416,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_timeseries(feature_selection=list(feature_idx))
 
 
@@ -438,7 +440,7 @@ def estimate(project_directory):
         data_df, uncertainty_df = sim.get_data()
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     factor_estimator = FactorEstimator(V=V, U=U)
     estimator_results = factor_estimator.run(
@@ -470,7 +472,7 @@ def run(project_directory):
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     sa_models = BatchSA(V=V, U=U, **config["parameters"])
     sa_models.details()
@@ -744,7 +746,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     config = get_config(project_directory=project_directory)
     e_config = get_config(project_directory=project_directory, error=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -936,7 +938,7 @@ def run_constrained(project_directory):
     config = get_config(project_directory=project_directory)
     c_config = get_config(project_directory=project_directory, constrained=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From ce31a9607108117677524f9a42659f26fcafe235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 108/141] fix: the command line timeseries plot of an input
 feature

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 2921f96..8caa5a3 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -417,7 +417,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
-    dh.plot_feature_timeseries(feature_selection=list(feature_idx))
+    dh.plot_feature_timeseries(feature_selection=feature_idx)
 
 
 @esat_cli.command()
-- 
2.43.0


From 62a561c4a9359b437d0ae00761ce1f1a4d9cc346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 109/141] fix: the command line solution analysis prepares the
 dataset

---
 esat/cli/esat_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 8caa5a3..f262aa3 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -78,6 +78,7 @@ def get_batchsa(project_directory):
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
+    dh.get_data()
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
-- 
2.43.0


From 039697d173ce1caca8355e3e9cb1a1097188f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 110/141] fix: a combined error estimation without a bootstrap
 on the command line

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index f262aa3..2772a2a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -816,7 +816,7 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
+        elif bs:
             _bs = bs
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
-- 
2.43.0


From 57d491c5b57589740ed3bd5fda82620bd2a9bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 111/141] fix: the error estimation of a constrained model
 loads the saved model

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 2772a2a..1b12d82 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -756,7 +756,7 @@ def run_error(project_directory, disp, bs, bsdisp):
 
     if e_config["project"]["constrained_config"] != "":
         constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
+                                       f"constrained_model-{config['project']['name']}.pkl")
         c_solution = ConstrainedModel.load(file_path=constrained_pkl)
         logger.info("Using existing constrained model.")
         selected_i = -1
-- 
2.43.0


From 8d84f1d66e175d616b2f641aa8e9907f029037f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 112/141] fix: the command line error analysis of one selected
 method

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 1b12d82..9744e6e 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -864,7 +864,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -894,7 +894,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From c3938fcc6fcf100992d730a9a9a812a1020f2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 113/141] fix: the command line combined error estimation uses
 its own features

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 9744e6e..7dc128b 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -805,7 +805,7 @@ def run_error(project_directory, disp, bs, bsdisp):
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
         logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
-- 
2.43.0


From ca0e03f1fd392b52d1c94e1ce3d7178e36e38e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 114/141] fix: the default factor indices of the command line
 plots are valid

---
 esat/cli/esat_cli.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7dc128b..f4489c9 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -579,7 +579,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile.", show_default=True)
 def solution_factor_profile(project_directory, selected_model, factor_idx):
     """
     Plot the factor profile for a specified factor index (factor_idx) and solution model (selected_model).
@@ -618,9 +618,9 @@ def solution_factor_fingerprints(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-x', "--factor_idx1", default=0, type=int, help="The index of the x-axis factor profile.",
+@click.option('-x', "--factor_idx1", default=1, type=int, help="The index of the x-axis factor profile.",
               show_default=True)
-@click.option('-y', "--factor_idx2", default=1, type=int, help="The index of the y-axis factor profile.",
+@click.option('-y', "--factor_idx2", default=2, type=int, help="The index of the y-axis factor profile.",
               show_default=True)
 def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2):
     """
@@ -680,7 +680,7 @@ def solution_factor_composition(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile.", show_default=True)
 @click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
                                                                    "include. Default: -1, includes all features which "
                                                                    "contribution to the factor_idx. Multiple indices"
@@ -884,7 +884,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
               help="Summarize the bootstrap (BS) error estimation results.")
 @click.option("--bsdisp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the bootstrap-displacement (BSDISP) error estimation results.")
-@click.option("--factor_idx", default=0, type=int, help="The factor index to display results.")
+@click.option("--factor_idx", default=1, type=int, help="The factor index to display results.")
 def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     """
     Show the results of an error estimation method. One method must be selected.
@@ -1062,7 +1062,7 @@ def constrained_evaluate_expressions(project_directory):
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True))
-@click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
+@click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
     Display a specified factor profile and contributions plot for the constrained model solution.
@@ -1093,8 +1093,8 @@ def constrained_factor_fingerprints(project_directory):
 
 @analysis_constrained.command(name="plot-gspace")
 @click.argument("project_directory", type=click.Path(exists=True))
-@click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
-@click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
+@click.option('-x', "--factor_idx1", default=1, type=int, show_default=True, help="The factor index for the x-axis.")
+@click.option('-y', "--factor_idx2", default=2, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the base solution values.")
 @click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
@@ -1114,7 +1114,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True))
-@click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
+@click.option('-i', "--feature_idx", default=1, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
-- 
2.43.0


From d2d0e19063ba38108d2a97e0bcf8675aba99bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 115/141] fix: the command line constrained run prepares the
 dataset

---
 esat/cli/esat_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index f4489c9..7f242ca 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -940,6 +940,7 @@ def run_constrained(project_directory):
     c_config = get_config(project_directory=project_directory, constrained=True)
 
     dh = get_dh(**config["data"])
+    dh.get_data()
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From b30c3501f501a710d8d3dafc5e7b556019731f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 116/141] fix: both constrained contribution plots are
 available on the command line

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7f242ca..abb2c6c 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1061,7 +1061,7 @@ def constrained_evaluate_expressions(project_directory):
     c_model.evaluate_expressions()
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-profile")
 @click.argument("project_directory", type=click.Path(exists=True))
 @click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
@@ -1116,7 +1116,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True))
 @click.option('-i', "--feature_idx", default=1, type=int, show_default=True, help="The feature index to display.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From 34a4899b2d8eaec9297b2d90a024a58a56ed04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 117/141] fix: outliers of a simulator configuration can be
 turned off

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 38f9376..6466763 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -95,7 +95,7 @@ class Simulator:
         self.syn_columns = [f"Feature {i}" for i in range(1, self.features_n+1)]
         self.syn_factor_columns = [f"Factor {i}" for i in range(1, self.factors_n+1)]
 
-        self.outliers = outliers
+        self.outliers = outliers if isinstance(outliers, bool) else str(outliers).lower() == "true"
         self.outlier_p = float(outlier_p)
         self.outlier_mag = float(outlier_mag)
         self.noise_mean_min = float(noise_mean_min)
-- 
2.43.0


From b820539af8fe4acf971362b3802d7ae6bc4f3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 118/141] fix: normalization of a run configuration can be
 turned off

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 8a9183a..81e0230 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -117,7 +117,7 @@ class BatchSA:
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
-        self.init_norm = bool(init_norm)
+        self.init_norm = init_norm if isinstance(init_norm, bool) else str(init_norm).lower() == "true"
         self.hold_h = hold_h
         self.delay_h = delay_h
         self.use_gpu = use_gpu
-- 
2.43.0


From 23020e46a2303de8fc4598a03f2ffa0a67b4032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 119/141] fix: a relative project directory on the command line

---
 esat/cli/esat_cli.py | 74 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index abb2c6c..3ac7146 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -143,7 +143,7 @@ def esat_cli():
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup(project_directory):
     """
     Create the configuration file for a batch source apportionment run in the provided directory.
@@ -177,7 +177,7 @@ def simulator():
 
 
 @simulator.command(name='setup')
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup_sim(project_directory):
     """
     Create the configuration file for a batch source apportionment simulated run in the provided directory.
@@ -211,7 +211,7 @@ def setup_sim(project_directory):
 
 
 @simulator.command(name="generate")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def generate_sim(project_directory):
     """
     Generate the synthetic data and uncertainty datasets as defined in the sim_config.toml. Only required for data
@@ -238,7 +238,7 @@ def generate_sim(project_directory):
 
 
 @simulator.command(name="compare")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def compare_sim(project_directory):
     """
     Compares the models generated from the synthetic data to show how similar the modelled profiles are to the known
@@ -266,7 +266,7 @@ def compare_sim(project_directory):
 
 
 @simulator.command(name="plot")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_sim(project_directory):
     """
     Plots the results of the simulator output comparison to the synthetic profiles.
@@ -299,7 +299,7 @@ def analysis_batch():
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_loss(project_directory):
     """
     Plots the loss value Q(true) over the training iterations for the batch solution.
@@ -320,7 +320,7 @@ def plot_loss(project_directory):
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_distribution(project_directory):
     """
     Plots the loss value distribution Q(true) and Q(robust) for the batch solution.
@@ -349,7 +349,7 @@ def analysis_input():
 
 
 @analysis_input.command(name="metrics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def metrics(project_directory):
     """
     Display the input metrics for the input/uncertainty data specified in the configuration file.
@@ -366,7 +366,7 @@ def metrics(project_directory):
 
 
 @analysis_input.command(name="plot-feature")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The index of the input/uncertainty data feature, "
                                                                "column in the dataset.", show_default=True)
 def plot_input_uncertainty(project_directory, feature_idx):
@@ -384,7 +384,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
 
 @analysis_input.command(name="plot-data")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--feature_idx1", type=int, default=0, help="The index of the first (x-axis) input data feature, "
                                                                 "column in the dataset.", show_default=True)
 @click.option('-y', "--feature_idx2", type=int, default=1, help="The index of the second (y-axis) input data feature, "
@@ -404,7 +404,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 
 @analysis_input.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
                                                                "columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
@@ -422,7 +422,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def estimate(project_directory):
     """
     Run a factor estimation using the provided configuration file.
@@ -453,7 +453,7 @@ def estimate(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run(project_directory):
     """
     Run a batch source apportionment run using the provided configuration file.
@@ -495,7 +495,7 @@ def analysis_solution():
 
 
 @analysis_solution.command(name="plot-residuals")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -515,7 +515,7 @@ def solution_residual_histogram(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="statistics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -535,7 +535,7 @@ def solution_statistics(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-estimated")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -555,7 +555,7 @@ def solution_estimated_observed(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -575,7 +575,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -595,7 +595,7 @@ def solution_factor_profile(project_directory, selected_model, factor_idx):
 
 
 @analysis_solution.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -614,7 +614,7 @@ def solution_factor_fingerprints(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -637,7 +637,7 @@ def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2
 
 
 @analysis_solution.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -657,7 +657,7 @@ def solution_factor_contributions(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-composition")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -676,7 +676,7 @@ def solution_factor_composition(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-surface")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -705,7 +705,7 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_error(project_directory):
     """
     Create an error estimation configuration file for the specified project.
@@ -724,7 +724,7 @@ def setup_error(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, default=False,
               help="Run the displacement (DISP) error estimation method.", show_default=True)
 @click.option("--bs", is_flag=True, prompt=False, default=False, show_default=True,
@@ -848,7 +848,7 @@ def analysis_error():
 
 
 @analysis_error.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -877,7 +877,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
 
 
 @analysis_error.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -907,7 +907,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_constrained(project_directory):
     """
     Create a configuration file for executing a constrained model run on a specified project.
@@ -926,7 +926,7 @@ def setup_constrained(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run_constrained(project_directory):
     """
     Run a constrained model with the specified configuration file.
@@ -997,7 +997,7 @@ def analysis_constrained():
 
 
 @analysis_constrained.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_results(project_directory):
     """
     Display the results of a constrained model run.
@@ -1013,7 +1013,7 @@ def constrained_results(project_directory):
 
 
 @analysis_constrained.command(name="plot-q")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-q', "--qtype", prompt_required=False, default='Aux', show_default=True,
               help="Plot the loss value for qtype: True, Robust, Aux")
 def constrained_plot_q(project_directory, qtype):
@@ -1032,7 +1032,7 @@ def constrained_plot_q(project_directory, qtype):
 
 
 @analysis_constrained.command(name="eval-constraints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_constraints(project_directory):
     """
     Display the evaluation table of the constrained model results, for each constraint.
@@ -1047,7 +1047,7 @@ def constrained_evaluate_constraints(project_directory):
 
 
 @analysis_constrained.command(name="eval-expressions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_expressions(project_directory):
     """
     Display the evaluation table of the constrained model results, for each expression.
@@ -1062,7 +1062,7 @@ def constrained_evaluate_expressions(project_directory):
 
 
 @analysis_constrained.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
@@ -1078,7 +1078,7 @@ def constrained_profile_contributions(project_directory, factor_idx):
 
 
 @analysis_constrained.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_factor_fingerprints(project_directory):
     """
     Display the constrained solution factor fingerprints.
@@ -1093,7 +1093,7 @@ def constrained_factor_fingerprints(project_directory):
 
 
 @analysis_constrained.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=1, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=2, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
@@ -1114,7 +1114,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=1, type=int, show_default=True, help="The feature index to display.")
 def constrained_factor_contributions(project_directory, feature_idx):
     """
-- 
2.43.0


From 80fe55ae0b9dd22ab8d8ffb7d32e4e2b9386e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 120/141] fix: the run configuration of a simulator project
 points to its synthetic files

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 3ac7146..b76e61f 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -202,8 +202,8 @@ def setup_sim(project_directory):
     logger.info(f"New simulator configuration file created. File path: {new_sim_config_file}")
     new_config = run_config
     new_config['project']['directory'] = project_directory
-    new_config['data']['input_path'] = new_sim_config['data']['input_path']
-    new_config['data']['uncertainty_path'] = new_sim_config['data']['uncertainty_path']
+    new_config['data']['input_path'] = os.path.join(project_directory, new_sim_config['data']['input_path'])
+    new_config['data']['uncertainty_path'] = os.path.join(project_directory, new_sim_config['data']['uncertainty_path'])
     new_config_file = os.path.join(project_directory, "run_config.toml")
     with open(new_config_file, 'w') as configfile:
         new_config.write(configfile)
-- 
2.43.0


From 71417de748082144c8acb6ffc0439ea7a51b3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 121/141] fix: a run of a simulator project uses its generated
 data

---
 esat/cli/esat_cli.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index b76e61f..309e875 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -438,8 +438,7 @@ def estimate(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
-        dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
+        dh = DataHandler.load_dataframe(input_df=sim.syn_data_df, uncertainty_df=sim.syn_uncertainty_df)
     else:
         dh = get_dh(**config["data"])
     V, U = dh.get_data()
@@ -469,8 +468,7 @@ def run(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
-        dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
+        dh = DataHandler.load_dataframe(input_df=sim.syn_data_df, uncertainty_df=sim.syn_uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
         dh = get_dh(**config["data"])
-- 
2.43.0


From adf3835b6e552b9aee08d03dd074f7e63e9086e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 122/141] fix: the command line surface plot of selected
 features

---
 esat/cli/esat_cli.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 309e875..7063b06 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -679,27 +679,27 @@ def solution_factor_composition(project_directory, selected_model):
                                                                    "Default: -1, the best performing model.",
               show_default=True)
 @click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile.", show_default=True)
-@click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
-                                                                   "include. Default: -1, includes all features which "
-                                                                   "contribution to the factor_idx. Multiple indices"
-                                                                   " can be provided.")
+@click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the feature to show for "
+                                                                   "all factors when the factor_idx is -1. Multiple "
+                                                                   "indices can be provided.")
 def solution_factor_surface(project_directory, selected_model, factor_idx, feature_idx):
     """
     Plot factor surface for a specified factor index (factor_idx), set of features (feature_idx), and solution model
-    (selected_model). Multiple feature indices can be provided as '-f 0 -f 1 -f 2'.
+    (selected_model). Multiple feature indices can be provided as '-f 1 -f 2 -f 3'.
 
     Parameters
 
     project_directory : The project directory containing .toml configuration files.
 
     """
-    feature_idx = feature_idx if len(feature_idx) > 0 else -1
     ma, selected_i = get_model_analysis(project_directory=project_directory, selected_model=selected_model)
     factor_idx = factor_idx if factor_idx != -1 else None
-    feature_idx = feature_idx if feature_idx != -1 else None
+    # without a factor, each of the features is shown for all factors
+    feature_idx = feature_idx if factor_idx is None and len(feature_idx) > 0 else [None]
     logger.info(f"ESAT Solution Factor Surface for model: {selected_i}, factor index: {factor_idx}, "
                 f"feature index: {feature_idx}")
-    ma.plot_factor_surface(feature_idx=feature_idx, factor_idx=factor_idx)
+    for i in feature_idx:
+        ma.plot_factor_surface(feature_idx=i, factor_idx=factor_idx)
 
 
 @esat_cli.command()
-- 
2.43.0


From 3892a63164bbd02473f9e5f0c2c5288068191b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 123/141] fix: the expression evaluation of a run without
 expressions raised a ValueError

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 70c700f..1ae1ecc 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -851,7 +851,7 @@ class ConstrainedModel:
 
         """
         exp_element = {}
-        max_terms = np.max([len(i[0]) for i in self.expression_labeled])
+        max_terms = max([len(i[0]) for i in self.expression_labeled], default=0)
         exp_table = [[""] * (max_terms + 3) for i in range(len(self.expression_labeled))]
         eval_exp = []
         base_exp = []
-- 
2.43.0


From 78bad65d0d5198e2ab88f3b7dcda7f38c62a6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 124/141] fix: pull up returned a value beyond the allowed dQ
 found in its last search step

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1ae1ecc..895d0ab 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -664,7 +664,7 @@ class ConstrainedModel:
             else:
                 high_found = True
             high_search_i += 1
-            if high_search_i >= max_search_i:
+            if not high_found and high_search_i >= max_search_i:
                 return new_value
         new_value = 0.0
         modifier = (high_modifier + low_modifier) / 2.0
-- 
2.43.0


From 810d1c6cb519239dad3b3f3fa4aefceefc31b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 125/141] fix: a parallel bootstrap failed on a single core
 machine

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 010e93a..0c76bbd 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -92,7 +92,7 @@ class Bootstrap:
         self.base_seed = self.sa.seed
         self.bs_seed = seed if seed is not None else self.base_seed
         self.parallel = parallel if isinstance(parallel, bool) else str(parallel).lower() == "true"
-        self.cpus = cpus if cpus > 0 else mp.cpu_count() - 1
+        self.cpus = cpus if cpus > 0 else max(mp.cpu_count() - 1, 1)
 
         self.bs_results = {}
         self.rng = np.random.default_rng(seed=self.bs_seed)
-- 
2.43.0


From 25c6fca9819c3f0be51a84bd8a7ab15b06445310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 126/141] fix: a parallel BS-DISP failed on a single core
 machine

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index d4835a1..73ca6e6 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -167,7 +167,7 @@ class BSDISP:
         sys.stdout.flush()
 
         if parallel:
-            cpus = int(mp.cpu_count() * 0.75)
+            cpus = max(int(mp.cpu_count() * 0.75), 1)
             p_args = []
             for i, bs_key in enumerate(bs_keys):
                 i_model = self.bootstrap.bs_results[bs_key]["model"]
-- 
2.43.0


From 605c2ca3606a375dcf869b28701283d74f885e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 127/141] fix: compiled training scrambled row-ordered data and
 column-ordered factors

---
 esat/model/sa.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 202ea12..49e3e12 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -407,11 +407,12 @@ class SA:
             t0 = time.time()
             try:
                 results_dict = self.optimized_update(
-                    self.V.astype(np.float32),
-                    self.U.astype(np.float32),
-                    self.We.astype(np.float32),
-                    self.W.astype(np.float32),
-                    self.H.astype(np.float32),
+                    # The compiled functions read the data by columns and the factor matrices by rows
+                    np.asfortranarray(self.V, dtype=np.float32),
+                    np.asfortranarray(self.U, dtype=np.float32),
+                    np.asfortranarray(self.We, dtype=np.float32),
+                    np.ascontiguousarray(self.W, dtype=np.float32),
+                    np.ascontiguousarray(self.H, dtype=np.float32),
                     max_iter,
                     converge_delta,
                     converge_n,
-- 
2.43.0


From d2576c4c407fc2e8111d95ddf21e2fa4f5c12c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 128/141] fix: compiled LS-NMF produced NaN for a feature or
 sample of zeros

---
 rust/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9412944..e425e99 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -355,12 +355,12 @@ fn ls_nmf_update_cpu<'py>(
             wh = &new_w * &new_h;
             h_num = new_w.transpose() * &wev;
             h_den = &new_w.transpose() * &new_we.component_mul(&wh);
-            new_h = new_h.component_mul(&h_num.component_div(&h_den));
+            new_h = new_h.component_mul(&ratio(&h_num, &h_den));
         }
         wh = &new_w * &new_h;
         w_num = &wev * new_h.transpose();
         w_den = &new_we.component_mul(&wh) * &new_h.transpose();
-        new_w = new_w.component_mul(&w_num.component_div(&w_den));
+        new_w = new_w.component_mul(&ratio(&w_num, &w_den));
 
         let qtrue = calculate_q_cpu(&v, &u, &new_w, &new_h);
         q = qtrue;
@@ -907,6 +907,11 @@ fn ws_nmf_update_gpu<'py>(
 }
 
 
+// Multiplicative step of the LS-NMF update, elements without any support are set to zero
+fn ratio(num: &OMatrix<f32, Dyn, Dyn>, den: &OMatrix<f32, Dyn, Dyn>) -> OMatrix<f32, Dyn, Dyn> {
+    num.zip_map(den, |n, d| if d > 0.0 { n / d } else { 0.0 })
+}
+
 // Calculate Q (loss) for CPU
 fn calculate_q_cpu(
     v: &OMatrix<f32, Dyn, Dyn>, u: &OMatrix<f32, Dyn, Dyn>,
-- 
2.43.0


From 1912fff1e51fff7d3b540fb19029c88c8bd5f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 129/141] fix: compiled training refused model numbers above
 127

---
 rust/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index e425e99..02f94fa 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -203,7 +203,7 @@ fn ls_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -306,7 +306,7 @@ fn ls_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -417,7 +417,7 @@ fn ls_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -537,7 +537,7 @@ fn ws_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -638,7 +638,7 @@ fn ws_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -788,7 +788,7 @@ fn ws_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
-- 
2.43.0


From 399561075e0dc88d37c38c21c04da04f60ee7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 130/141] fix: compiled WS-NMF took the root of negative
 numbers for negative data

---
 rust/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 02f94fa..acb686d 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -686,8 +686,12 @@ fn ws_nmf_update_cpu<'py>(
     let vj_rows: Vec<DVector<f32>> = (0..wev_mat.nrows())
         .map(|j| DVector::from_row_slice(wev_mat.row(j).transpose().as_slice()))
         .collect();
-    let vj_cols: Vec<DVector<f32>> = (0..wev_mat.ncols())
-        .map(|j| DVector::from_row_slice(wev_mat.column(j).as_slice()))
+    // The data is split by sign, so that both terms of the profile update stay non-negative
+    let vj_pos_cols: Vec<DVector<f32>> = (0..wev_mat.ncols())
+        .map(|j| DVector::from_row_slice(wev_mat.column(j).as_slice()).map(|x| x.max(0.0)))
+        .collect();
+    let vj_neg_cols: Vec<DVector<f32>> = (0..wev_mat.ncols())
+        .map(|j| DVector::from_row_slice(wev_mat.column(j).as_slice()).map(|x| (-x).max(0.0)))
         .collect();
 
     for i in 0..max_iter {
@@ -711,10 +715,11 @@ fn ws_nmf_update_cpu<'py>(
 
             for j in 0..we.ncols() {
                 let we_j_diag = &we_col_diags[j];
-                let v_j = &vj_cols[j];
+                let v_pos = &vj_pos_cols[j];
+                let v_neg = &vj_neg_cols[j];
 
-                let n1 = v_j.transpose() * &w_pos;
-                let d1 = v_j.transpose() * &w_neg;
+                let n1 = v_pos.transpose() * &w_pos + v_neg.transpose() * &w_neg;
+                let d1 = v_pos.transpose() * &w_neg + v_neg.transpose() * &w_pos;
 
                 let n2a = w_neg.transpose() * we_j_diag;
                 let n2b = &n2a * &w_neg;
-- 
2.43.0


From d91ff6838f7028dc1c2c7a45fccba16626a9cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 131/141] fix: loading an empty, incomplete or foreign file
 raised instead of returning None

---
 esat/error/bootstrap.py        | 2 +-
 esat/error/bs_disp.py          | 2 +-
 esat/error/displacement.py     | 2 +-
 esat/model/batch_sa.py         | 2 +-
 esat/model/sa.py               | 2 +-
 esat/rotational/constrained.py | 2 +-
 eval/simulator.py              | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 0c76bbd..6f84fe6 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -823,7 +823,7 @@ class Bootstrap:
                 with open(file_path, "rb") as pfile:
                     bs = pickle.load(pfile)
                     return bs
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Bootstrap pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 73ca6e6..24dca8c 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -483,7 +483,7 @@ class BSDISP:
                 with open(file_path, "rb") as pfile:
                     bsdisp = pickle.load(pfile)
                     return bsdisp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BS-DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 719a596..578ad41 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -715,7 +715,7 @@ class Displacement:
                 with open(file_path, "rb") as pfile:
                     disp = pickle.load(pfile)
                     return disp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 81e0230..2895eed 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -476,7 +476,7 @@ class BatchSA:
                 with open(file_path, "rb") as pfile:
                     bsa = pickle.load(pfile)
                     return bsa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BatchSA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/sa.py b/esat/model/sa.py
index 49e3e12..552ea8b 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -589,7 +589,7 @@ class SA:
                 with open(file_path, "rb") as pfile:
                     sa = pickle.load(pfile)
                     return sa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load SA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 895d0ab..6c88992 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1229,7 +1229,7 @@ class ConstrainedModel:
                 with open(file_path, "rb") as pfile:
                     c_solution = pickle.load(pfile)
                     return c_solution
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load constrained solution pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/eval/simulator.py b/eval/simulator.py
index 6466763..23e186c 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -587,7 +587,7 @@ class Simulator:
                 with open(file_path, "rb") as pfile:
                     sim = pickle.load(pfile)
                     return sim
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Simulator pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
-- 
2.43.0


From 93038cd6bd004d2f0b2c894368e2fbb693f5c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 132/141] fix: a parallel batch failed with a progress callback
 that cannot be pickled

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 2895eed..00c4bf3 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -253,7 +253,7 @@ class BatchSA:
                         input_parameters.append((
                             _sa, i, progress_queue, log_queue,
                             self.max_iter, self.converge_delta, self.converge_n,
-                            self.update_step, self.hold_h, self.delay_h, self.progress_callback
+                            self.update_step, self.hold_h, self.delay_h, None
                         ))
                     logger.info("Input parameters for multiprocessing prepared.")
 
-- 
2.43.0


From ffe84e968d780546d604b9562a8e0d7dc842b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 133/141] fix: the index column of a file with a byte order
 mark was not found

---
 esat/data/datahandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index f7adba9..2a8bf03 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -360,7 +360,8 @@ class DataHandler:
         # the first column is the index column when none is specified
         index_col = index_col if index_col else 0
         if ext in ["csv", "txt"]:
-            data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
+            # a byte order mark is not part of the first name
+            data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python", encoding="utf-8-sig")
         elif ext in ["xls", "xlsx"]:
             data = pd.read_excel(filepath, index_col=index_col)
         else:
-- 
2.43.0


From 77e2a96c4c572481dadc47ba30ec4ffbb32fa14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 134/141] fix: a tab separated file with commas in its feature
 names was split at the commas

---
 esat/data/datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 2a8bf03..4c186b2 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -360,8 +360,10 @@ class DataHandler:
         # the first column is the index column when none is specified
         index_col = index_col if index_col else 0
         if ext in ["csv", "txt"]:
-            # a byte order mark is not part of the first name
-            data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python", encoding="utf-8-sig")
+            # the names of a tab separated file can contain commas, and a byte order mark is not part of the first name
+            with open(filepath, encoding="utf-8-sig") as file:
+                sep = "\t" if "\t" in file.readline() else None
+            data = pd.read_csv(filepath, index_col=index_col, sep=sep, engine="python", encoding="utf-8-sig")
         elif ext in ["xls", "xlsx"]:
             data = pd.read_excel(filepath, index_col=index_col)
         else:
-- 
2.43.0


From af18ed89afe64e55a22360cf15e3149038db1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 135/141] fix: the update given to train was ignored by the
 compiled engine

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 552ea8b..3e1418d 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -403,7 +403,7 @@ class SA:
         converged = False
         q_list = []
 
-        if self.optimized:
+        if self.optimized and update_step is None:
             t0 = time.time()
             try:
                 results_dict = self.optimized_update(
-- 
2.43.0


From 2b9cba450829c14ce617a20e6479e39dba58d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 136/141] fix: commands accepted a model selection outside the
 batch

---
 esat/cli/esat_cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7063b06..5863cd5 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -75,12 +75,19 @@ def get_batchsa(project_directory):
     return batch_sa
 
 
+def select_model(sa_models, selected_model):
+    selected_i = sa_models.best_model if selected_model == -1 else selected_model
+    if not 0 <= selected_i < len(sa_models.results):
+        raise click.ClickException(f"Model {selected_i} is not one of the {len(sa_models.results)} models of the batch.")
+    return selected_i
+
+
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
     dh.get_data()
     sa_models = get_batchsa(project_directory=project_directory)
-    selected_i = sa_models.best_model if selected_model == -1 else selected_model
+    selected_i = select_model(sa_models, selected_model)
     i_model = sa_models.results[selected_i]
     ma = ModelAnalysis(datahandler=dh, model=i_model, selected_model=selected_i)
     return ma, selected_i
@@ -760,8 +767,7 @@ def run_error(project_directory, disp, bs, bsdisp):
         selected_i = -1
         selected_model = c_solution.constrained_model
     else:
-        selected_i = int(e_config["project"]["selected_model"])
-        selected_i = sa_models.best_model if selected_i == -1 else selected_i
+        selected_i = select_model(sa_models, int(e_config["project"]["selected_model"]))
         selected_model = sa_models.results[selected_i]
     logger.info(f"Running error estimation on model {selected_i}")
     if disp:
@@ -942,8 +948,7 @@ def run_constrained(project_directory):
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-    selected_i = c_config["parameters"]["selected_model"]
-    selected_i = sa_models.best_model if int(selected_i) == -1 else int(selected_i)
+    selected_i = select_model(sa_models, int(c_config["parameters"]["selected_model"]))
     selected_model = sa_models.results[selected_i]
 
     constrained_dir = os.path.join(project_directory, "constrained")
-- 
2.43.0


From 37d11ac7878e74cc3238ee4940df77a61e365683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 137/141] fix: datasets with missing locations could not be
 loaded or split

---
 esat/data/datahandler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4c186b2..c2100ae 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -190,11 +190,14 @@ class DataHandler:
 
         for _, loc in locations.iterrows():
             if set(self.loc_cols) == {"latitude", "longitude"}:
-                loc_filter = (rounded_input[self.loc_cols].round(5) == loc.values).all(axis=1)
+                loc_values = rounded_input[self.loc_cols].round(5)
+                loc_filter = ((loc_values == loc.values) | (loc_values.isna() & loc.isna())).all(axis=1)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
             else:
-                loc_filter = (self.input_data[self.loc_cols] == loc.values).all(axis=1)
+                loc_values = self.input_data[self.loc_cols]
+                # samples without a location belong together
+                loc_filter = ((loc_values == loc.values) | (loc_values.isna() & loc.isna())).all(axis=1)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
@@ -389,12 +392,12 @@ class DataHandler:
         self.input_data = self.input_data[~nan_rows]
         self.uncertainty_data = self.uncertainty_data[~nan_rows]
 
-        self.min_values = self.input_data.min(axis=0)
-        self.max_values = self.input_data.max(axis=0)
-
         c_df = self._drop_non_features(self.input_data).copy()
         u_df = self._drop_non_features(self.uncertainty_data).copy()
 
+        self.min_values = c_df.min(axis=0)
+        self.max_values = c_df.max(axis=0)
+
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
         median_con = c_df.median(numeric_only=True)
-- 
2.43.0


From 4fe3806a934b2053f47ad1f994318f5511824ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 138/141] fix: a merged dataset kept the statistics and the
 plotting data of one source

---
 esat/data/datahandler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index c2100ae..94209d3 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -264,6 +264,13 @@ class DataHandler:
         loc_cols = [self.loc_cols] if isinstance(self.loc_cols, str) else list(self.loc_cols or [])
         self.loc_cols = loc_cols + [col for col in ('source_label',) if col not in loc_cols]
 
+        # Statistics and plotting data of the merged samples, the categories are kept
+        categories = self.metrics["Category"]
+        self._load_data(existing_data=True)
+        self.metrics["Category"] = categories
+        self._determine_optimal_block()
+        self._aggregate_data()
+
         logger.info("DataHandlers merged successfully.")
         return True
 
-- 
2.43.0


From 62efbcf80945f459424c46bf19ec5fbe3f74528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 139/141] fix: imputation failed for or imputed the location
 and dropped columns

---
 esat/data/impute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index f71e01a..a006b67 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -54,8 +54,9 @@ class DataImputer:
             return
         self.strategy = strategy
         logger.info(f"Imputing missing values using strategy: {strategy}")
-        V = self.data_handler.input_data.values
-        U = self.data_handler.uncertainty_data
+        # Only the features are imputed, not the location and the dropped columns
+        V = self.data_handler._drop_non_features(self.data_handler.input_data).values
+        U = self.data_handler._drop_non_features(self.data_handler.uncertainty_data)
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
             U = U.mask(U == self.missing_value)
-- 
2.43.0


From b0780d1953ea79b63edfaeac70ab908412b3fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 140/141] fix: the saved displacement metadata lists the
 excluded features

They were kept as a set, which the JSON file shows as null.
---
 esat/error/displacement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 578ad41..77766b0 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -92,7 +92,7 @@ class Displacement:
         self.metadata = {
             "selected_model": self.selected_model,
             "features": self.features,
-            "excluded_features": self.excluded_features,
+            "excluded_features": sorted(self.excluded_features),
             "max_search": self.max_search,
             "threshold_dQ": self.threshold_dQ
         }
-- 
2.43.0


From f62a20b66e5af0003cd6f6a60e8e6b989d5c5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 141/141] fix: constrained expressions were solved imprecisely

The default solver stops early when the solution lies on the bounds, and left
expressions of several elements further from zero than before. The bounded
variable solver is exact for these small systems.
---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 6c88992..21127d0 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -407,7 +407,7 @@ class ConstrainedModel:
 
             # Solve for the changes of the factor elements using a least squares solver from scipy.optimize (with the resulting values bounded to be above zero)
             exp_bounds = (np.minimum(1e-8 - exp_x0, 0.0) - 1e-12, np.inf)
-            exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
+            exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds, method='bvls')
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
             for lbl, exp in self.expression_mapped.items():
-- 
2.43.0

