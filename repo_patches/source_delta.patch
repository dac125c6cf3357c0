From 0a0ef8935e71aaa548d4e1b19a3ee568a0b4c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 001/127] fix: WSNMF.update accepts hold_h, which SA.train
 always passes

---
 esat/model/ws_nmf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..ecc6cc2 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False,
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -65,6 +68,9 @@ class WSNMF:
             _W.append(_w)
         W = np.array(_W)
 
+        if hold_h:
+            return W, H
+
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
 
-- 
2.43.0


From 5b588e88c4b596d5c119beba0231265d71573939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 002/127] fix: SA.train resets the convergence status of an
 earlier train call

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..e1c82d6 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -394,6 +394,8 @@ class SA:
 
         converged = False
         q_list = []
+        self.converged = False
+        self.converge_steps = 0
 
         if self.optimized:
             t0 = time.time()
-- 
2.43.0


From 823b82e6aeb5edbddbc6bfe7cc5632b755478258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 003/127] fix: SA.initialize no longer modifies the H array of
 the caller

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index e1c82d6..7961718 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -259,6 +259,8 @@ class SA:
             if H.shape != (self.factors, self.n):
                 prior_H = H
                 H = None
+            else:
+                H = np.array(H)
 
         if "kmeans" in init_method.lower():
             self.metadata["init_norm"] = init_norm
-- 
2.43.0


From 9b172b5ebd5cc94bb159670e870396c5ce4fc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 004/127] fix: SA.initialize produces valid W and H when a row
 or column mean of V is negative

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 7961718..985492b 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -277,7 +277,7 @@ class SA:
             VH_mean = np.mean(self.V, axis=0)
             VW_mean = np.mean(self.V, axis=1)
             if H is None:
-                V_avg = np.sqrt(VH_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VH_mean) / self.factors)
                 H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
             if "update" in init_method.lower():
                 if self.method == "ls-nmf":
@@ -285,7 +285,7 @@ class SA:
                 else:
                     W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
             if W is None:
-                V_avg = np.sqrt(VW_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VW_mean) / self.factors)
                 V_avg = V_avg.reshape(len(V_avg), 1)
                 W = np.multiply(V_avg, self.rng.standard_normal(size=(self.m, self.factors)).astype(self.V.dtype,
                                                                                                     copy=False))
-- 
2.43.0


From d096c316560a453bf190b1a04eb20bd64d2614e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 005/127] fix: SA.initialize keeps the sign of a partial prior
 H when normalising it

---
 esat/model/sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 985492b..bf1d198 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -299,6 +299,7 @@ class SA:
         if prior_H is not None:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
+            H[H <= 0.0] = 1e-12
             H = H / H.sum(axis=0)
         H[H <= 0.0] = 1e-12
         self.H = H
-- 
2.43.0


From 4245cd22b6862f9a5fbdca12237609d9aa6677ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 006/127] fix: SA.save writes the csv files when no header is
 given

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index bf1d198..8cc2b96 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -509,7 +509,7 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = []
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
-- 
2.43.0


From c52cdfe635766607a86f5fb9e30b71702087c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 007/127] fix: load returns None for a truncated or corrupt
 file instead of raising

---
 esat/error/bootstrap.py        | 2 +-
 esat/error/bs_disp.py          | 2 +-
 esat/error/displacement.py     | 2 +-
 esat/model/batch_sa.py         | 2 +-
 esat/model/sa.py               | 2 +-
 esat/rotational/constrained.py | 2 +-
 eval/simulator.py              | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..ab5f3e3 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -821,7 +821,7 @@ class Bootstrap:
                 with open(file_path, "rb") as pfile:
                     bs = pickle.load(pfile)
                     return bs
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Bootstrap pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..1ae2ecf 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -472,7 +472,7 @@ class BSDISP:
                 with open(file_path, "rb") as pfile:
                     bsdisp = pickle.load(pfile)
                     return bsdisp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BS-DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..514ed05 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -715,7 +715,7 @@ class Displacement:
                 with open(file_path, "rb") as pfile:
                     disp = pickle.load(pfile)
                     return disp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..771a7b0 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -464,7 +464,7 @@ class BatchSA:
                 with open(file_path, "rb") as pfile:
                     bsa = pickle.load(pfile)
                     return bsa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BatchSA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/sa.py b/esat/model/sa.py
index 8cc2b96..30a9055 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -583,7 +583,7 @@ class SA:
                 with open(file_path, "rb") as pfile:
                     sa = pickle.load(pfile)
                     return sa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load SA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..a45646e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1208,7 +1208,7 @@ class ConstrainedModel:
                 with open(file_path, "rb") as pfile:
                     c_solution = pickle.load(pfile)
                     return c_solution
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load constrained solution pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..603170a 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -583,7 +583,7 @@ class Simulator:
                 with open(file_path, "rb") as pfile:
                     sim = pickle.load(pfile)
                     return sim
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Simulator pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
-- 
2.43.0


From 673fffe8cb90d1c49df8a72edfd8b4e8760e908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 008/127] fix: get_data drops a row when either its data or its
 uncertainty is missing

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..5beb6fc 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -322,8 +322,8 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        _input_data = _input_data[~_input_nans & ~_uncertainty_nans]
+        _uncertainty_data = _uncertainty_data[~_input_nans & ~_uncertainty_nans]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From b9eefc32cd9abb14725a35da553308e5b4ea75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 009/127] fix: zero replacement in DataHandler no longer
 underflows to zero in float32

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 5beb6fc..bfc8825 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,7 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+EPSILON = 1e-12     # must be representable as a float32
 
 
 class DataHandler:
-- 
2.43.0


From 773e7e89dfeed1a97ffa1deba4a0a4a7dbfc6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 010/127] fix: set_category rejects a feature that is not in
 the dataset

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index bfc8825..a1aee2d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -145,6 +145,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Unable to set category, feature: {feature} is not in the dataset")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From 1d2e282b33f6e40f97a3dbe800a58417beeb97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 011/127] fix: get_data accepts a category on a column that
 drop_col or loc_cols excludes

---
 esat/data/datahandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index a1aee2d..2a37800 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -304,11 +304,15 @@ class DataHandler:
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
         for bf in bad_features:
+            if bf not in _input_data.columns:
+                continue
             _input_data = _input_data.drop(labels=bf, axis=1)
             _uncertainty_data = _uncertainty_data.drop(labels=bf, axis=1)
         # Multiply the uncertainty of weak category features by 3
         weak_features = list(self.metrics.loc[self.metrics["Category"] == "weak"].index)
         for wf in weak_features:
+            if wf not in _uncertainty_data.columns:
+                continue
             _uncertainty_data[wf] = _uncertainty_data[wf] * 3.0
 
         # Exclude loc_cols from features
-- 
2.43.0


From 3d6f0cfaec067750334fd63f1a1b6b7a7ef72a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 012/127] fix: split_locations handlers keep excluding the
 location and dropped columns

---
 esat/data/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 2a37800..2eb2c13 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -199,6 +199,8 @@ class DataHandler:
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
             dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh.loc_cols = list(self.loc_cols)
+            dh.drop_col = self.drop_col
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
-- 
2.43.0


From ce58d45853803a54e51db99d1db16dc6d270c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 013/127] fix: DataImputer can be created and imputes with the
 default missing value

---
 esat/data/impute.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..7738839 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
@@ -54,7 +55,7 @@ class DataImputer:
         self.strategy = strategy
         logger.info(f"Imputing missing values using strategy: {strategy}")
         V = self.data_handler.input_data.values
-        U = self.data_handler.uncertainty_data
+        U = self.data_handler.uncertainty_data.values
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
             U = np.where(U == self.missing_value, np.nan, U)
@@ -95,8 +96,8 @@ class DataImputer:
         imputer2 = SimpleImputer(strategy=strategy, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_knn_imputer(self, V, U, n_neighbors=5, weights='uniform'):
@@ -113,8 +114,8 @@ class DataImputer:
         imputer2 = KNNImputer(n_neighbors=n_neighbors, weights=weights, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_iterative_imputer(self, V, U, max_iter=10, tol=1e-3):
@@ -131,6 +132,6 @@ class DataImputer:
         imputer2 = IterativeImputer(max_iter=max_iter, tol=tol, random_state=self.random_seed, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.data_handler.input_data.columns, index=self.data_handler.input_data.index)
         return self.imputed_data, self.imputed_uncertainty
-- 
2.43.0


From 0e9ec0fbfb2e59e4d66d6d7ab5bee872d70999d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 014/127] fix: the test MSE of the factor estimator is taken
 over the complement of the training mask

---
 esat/estimator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..8ae8509 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -71,9 +71,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From 6f630db6c8905e6fa24adbc135635bec093e7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 015/127] fix: the factor estimator still estimates when a
 factor count was never sampled

---
 esat/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 8ae8509..bb0068c 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -157,7 +157,7 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
+        c = 1.01 * np.nanmax(delta_mse_r)
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
@@ -165,7 +165,7 @@ class FactorEstimator:
             ratio_delta.append(rd)
         ratio_delta.append(np.nan)
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From 506c9e3034b1c1051df9c5a1710789e686cac06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 016/127] fix: get_data works after merge, which adds a text
 label column

---
 esat/data/datahandler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 2eb2c13..b096a1d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -288,13 +288,17 @@ class DataHandler:
         """
         Sets the processed input and uncertainty datasets.
         """
+        # The label column added by merge is not a feature
+        _input_data = self.input_data.drop(labels="source_label", axis=1, errors="ignore")
+        _uncertainty_data = self.uncertainty_data.drop(labels="source_label", axis=1, errors="ignore")
+
         # Drop columns if specified
         if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
+            _input_data = copy.copy(_input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
+            _uncertainty_data = copy.copy(_uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
         else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
+            _input_data = copy.copy(_input_data).astype("float32")
+            _uncertainty_data = copy.copy(_uncertainty_data).astype("float32")
 
         # Drop location columns if specified
         if self.loc_cols is not None:
-- 
2.43.0


From d6da5b7a7cf073977cf0ff90d0b154baf91d2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 017/127] fix: a bootstrap block size above half the samples is
 reduced to a whole number of samples

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index ab5f3e3..0c9c887 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,8 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {max(N // 2, 1)}")
+            self.block_size = max(N // 2, 1)
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
-- 
2.43.0


From a2e1d0acc0d6242387cbbf9e79ae66ab5a4032f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 018/127] fix: bootstrap block resampling can draw every block,
 including the last one

---
 esat/error/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 0c9c887..ff19a56 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -163,12 +163,12 @@ class Bootstrap:
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
-                index_i = index_blocks[rng_i]
+                rng_i = int(rng.integers(low=0, high=int(M), size=1)[0])
+                index_i = list(index_blocks[rng_i])
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From ba4d4e9939634d53b4aab679ef26d4fd3287588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 019/127] fix: bootstrap statistics no longer modify the stored
 models and the base model

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index ff19a56..6a6e63d 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -560,7 +560,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = np.array(j_v["model"].H[i])
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -625,7 +625,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = np.array(self.base_H[factor])
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From df347bc9e2b38efb949d77481282299188b56cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 020/127] fix: parallel bootstrap results are kept in run
 order, not in completion order

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 6a6e63d..0e7ecd7 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -414,7 +414,7 @@ class Bootstrap:
                     for i in pool.imap_unordered(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
-            for r in results:
+            for r in sorted(results, key=lambda x: x[0]):
                 self.bs_results[r[0]] = r[1]
         else:
             for i in tqdm(range(1, self.bootstrap_n+1), desc="Bootstrap resampling, training and mapping"):
-- 
2.43.0


From d674abdae3952cbb714fe98272ca8a655a2ac809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 021/127] fix: displacement swap counts belong to their own
 factor whatever the completion order

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 514ed05..625b097 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -605,8 +605,10 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
-        factor_i = 0
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
         for factor, factor_results in self.increase_results.items():
+            factor_i = int(factor.split("-")[1]) - 1
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -614,9 +616,8 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
-        factor_i = 0
         for factor, factor_results in self.decrease_results.items():
+            factor_i = int(factor.split("-")[1]) - 1
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -624,7 +625,6 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
 
     def save(self, disp_name: str,
              output_directory: str,
-- 
2.43.0


From be759ccdf4bdbffc177a9193a45b580a4f401f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 022/127] fix: the dQ labels of the displacement swap tables
 match their rows

---
 esat/error/bs_disp.py      | 2 +-
 esat/error/displacement.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 1ae2ecf..28d6a43 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -281,7 +281,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 625b097..e17b66b 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,7 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
 
@@ -677,7 +677,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
+                    dq_list = list(self.dQmax)
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
-- 
2.43.0


From e9defc8a8e16c28fade6d108b975e180e2131f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 023/127] fix: BS-DISP can run its displacement stage in
 parallel

---
 esat/error/bs_disp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 28d6a43..97fe257 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -177,7 +177,7 @@ class BSDISP:
                         pbar.update(1)
                         results.append(i)
 
-            for result in results:
+            for result in sorted(results, key=lambda x: x[0]):
                 i, i_disp = result
                 self.disp_results[i] = i_disp
         else:
@@ -201,7 +201,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From 53fab279cfcb739ff205d4d4e270fec186ba8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 024/127] fix: BS-DISP merges every bootstrap run, with the
 minima of the displaced values

---
 esat/error/bs_disp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 97fe257..f6934ac 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -228,11 +228,12 @@ class BSDISP:
         dQ_drop = disp_result["dQ_drop"]
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        self.n_drops = 1 if any(dQ_drop < 0.0) else 0
+        for result_i in list(self.disp_results.keys())[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -247,7 +248,7 @@ class BSDISP:
             if any(dQ_drop_i < 0.0):
                 self.n_drops += 1
         self.compiled_results =  copy.copy(self.disp_results[key0].compiled_results)
-        self.compiled_results["profiles"] = np.mean(disp_profiles, axis=0)
+        self.compiled_results["profile"] = np.mean(disp_profiles, axis=0)
         self.compiled_results["profile_max"] = profiles_max
         self.compiled_results["profile_min"] = profiles_min
         self.compiled_results["conc"] = np.mean(disp_conc, axis=0)
-- 
2.43.0


From 952567a13148b311db3cee34fea0d73039a53011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 025/127] fix: BSDISP.save returns the output directory when it
 writes no pickle file

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index f6934ac..8bf904d 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -434,6 +434,7 @@ class BSDISP:
                     pickle.dump(self, save_file)
                     logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From fcc4708e1f5c7d7aaf25b6125d76b543491d6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 026/127] fix: Bootstrap.save returns the path of the pickle
 file

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 0e7ecd7..e273984 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From 50f99d3cbd08ef574c2e4f0cf03c136376a7b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 027/127] fix: add_constraint validates the sample index, the
 target and the type, and labels samples correctly

---
 esat/rotational/constrained.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a45646e..2d1a46d 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -208,7 +208,10 @@ class ConstrainedModel:
         bool
            True if the constraint was added or False if the constraint wasn't valid and is not added.
         """
-        constraint_label = ""
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types are {Constraint.type_list}")
+            return False
         if target == 'feature':
             if index[0] >= self.base_model.factors or index[0] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
@@ -224,11 +227,14 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets are feature, sample.")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From 64e8b9c85db9ef3dd8e53f59737af9dd12f69e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 028/127] fix: the define limits constraint pulls to the limit
 it exceeds and leaves a value within the limits

---
 esat/rotational/constrained.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 2d1a46d..1af0453 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -354,9 +354,7 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
-                else:
-                    new_value = current_value
+                    new_value = constraint.target_values[1] - current_value
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From 90f8e3d0269668876b2e48024d2bd9b33db4dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 029/127] fix: the pull down search applies its modifier to the
 current value, not to its last guess

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1af0453..f21aa93 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -596,13 +596,14 @@ class ConstrainedModel:
         p_mod = 0.0
         new_value = 0.0
         max_seach_i = 30
+        base_value = iH[index] if target == "feature" else iW[index]
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = base_value * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = base_value * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From cca9beafa5c1db517acf12ef7088b30460677631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 030/127] fix: the pull to value search stays within the dQ
 limit when the target is above the current value

---
 esat/rotational/constrained.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index f21aa93..25faaad 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -695,12 +695,9 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # The search is between the target value, whose dQ is above the limit, and the current value, which has no dQ.
+        high_value = current_value
+        low_value = target_value
 
         mid_value = (high_value + low_value) / 2
 
-- 
2.43.0


From cda877dbb143c02907e7e329759042c527d11e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 031/127] fix: evaluate_expressions reads the sample elements
 of an expression as W[sample, factor]

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 25faaad..57e643a 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -853,9 +853,9 @@ class ConstrainedModel:
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
-                    else self.constrained_model.W[ele_index]
+                    else self.constrained_model.W[(ele_index[1], ele_index[0])]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-                    ele_index]
+                    (ele_index[1], ele_index[0])]
                 exp_element[ele] = (ele_index, element_details['type'], np.round(base_value,4), np.round(ele_value,4))
                 exp_values.append(ele_value * ele_coef)
                 base_values.append(base_value * ele_coef)
-- 
2.43.0


From 5ca6d07f96a9bc7e555fe4556043fbc0748f4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 032/127] fix: ConstrainedModel.save returns the saved path and
 keeps the model metadata in the metadata file

---
 esat/rotational/constrained.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 57e643a..620d3f5 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1169,13 +1169,13 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            self.constrained_model.save(
+            file_path = self.constrained_model.save(
                 model_name=model_name,
                 output_directory=output_directory,
                 pickle_model=pickle_model,
                 header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
-            metadata = self.metadata
+            metadata = {**self.constrained_model.metadata, **self.metadata}
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
             metadata["expressions"] = self.expressions
             metadata["softness"] = self.softness
@@ -1183,8 +1183,10 @@ class ConstrainedModel:
             with open(meta_file, "w") as mfile:
                 json.dump(metadata, mfile, default=np_encoder)
                 logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return file_path
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From c0d9d1c444ba731c79beb38e9f4c9b366e199e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 033/127] fix: the Q(Main) plot shows the sum of Q(True) and
 Q(aux)

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 620d3f5..4f381a6 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -780,7 +780,7 @@ class ConstrainedModel:
         elif Qtype.lower() == "main":
             title = 'Q(Main)'
             x = list(range(len(self.Q_list[0])))
-            y = self.Q_list[0] + self.Q_list[2]
+            y = [q_true + q_aux for q_true, q_aux in zip(self.Q_list[0], self.Q_list[2])]
         else:
             logger.error(f"Error: Invalid option for Qtype. Provided value: {Qtype}. "
                          f"Available options: true, robust, aux, main.")
-- 
2.43.0


From d9780097a37dcd735ffd119e7ce18805924b7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 034/127] fix: expressions are solved for 0, the value the
 expression states, instead of for the sum of the elements

---
 esat/rotational/constrained.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 4f381a6..124088a 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -368,6 +368,7 @@ class ConstrainedModel:
 
         exp_A = np.zeros(shape=(len(self.expression_labeled), len(self.expression_mapped.keys())))
         exp_B = np.zeros(shape=len(self.expression_labeled))
+        exp_V = np.zeros(shape=len(self.expression_mapped.keys()))
 
         # If there are expressions.
         if len(self.expression_labeled) > 0:
@@ -375,7 +376,8 @@ class ConstrainedModel:
             total_dQ = 0
 
             # Set the values of the expression matrix, from the coefficients in the expressions.
-            # Set the expression total vector to the sum of the expression values from the factor elements in the expression
+            # Set the expression total vector to the negative of the current value of the expression, the total change
+            # of the factor elements that makes the expression equal to 0.
             for i, exp in enumerate(self.expression_labeled):
                 total_dQ += exp[1]
                 exp_b = 0
@@ -385,23 +387,24 @@ class ConstrainedModel:
                         e_value = iH[exp_details['index']]
                     else:
                         e_value = iW[(exp_details['index'][1], exp_details['index'][0])]
-                    exp_b += e_value
                     if e_value < min_value:
                         min_value = e_value
                     exp_index = exp_details['exp_i'].index(i)
                     coef_index = exp_details['coef_index']
                     coef_value = float(exp_details['coef'][exp_index])
                     exp_A[i, coef_index] = coef_value
+                    exp_V[coef_index] = e_value
+                    exp_b -= coef_value * e_value
                 exp_B[i] = exp_b
 
-            # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
-            exp_bounds = (1e-8, np.max(exp_B))
+            # Solve the expression matrices using a least squares solver from scisrc.optimize (for the change of the factor elements, bounded so that the factor elements remain positive)
+            exp_bounds = (1e-8 - exp_V, np.inf)
             exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
             for lbl, exp in self.expression_mapped.items():
                 coef_index = exp['coef_index']
-                ele_value = exp_X.x[coef_index]
+                ele_value = exp_V[coef_index] + exp_X.x[coef_index]
                 ele_index = exp['index']
                 if exp['type'] == 'feature':
                     D_h[ele_index] = ele_value
-- 
2.43.0


From 43ea5ddee2d7718d6de6488adb40135850479c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 035/127] fix: sequential batch training uses delay_h and the
 per model H and W like parallel training

---
 esat/model/batch_sa.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 771a7b0..c1da8e0 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -292,13 +292,22 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None:
+                            self.H = np.array(self.H)
+                            i_H = self.H[model_i - 1] if len(self.H.shape) == 3 else self.H
+                        i_W = self.W
+                        if self.W is not None:
+                            self.W = np.array(self.W)
+                            i_W = self.W[model_i - 1] if len(self.W.shape) == 3 else self.W
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
+                                        delay_h=self.delay_h,
                                         progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
-- 
2.43.0


From 08a6dd358b72a0e825348a2388d0233e8816c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 036/127] fix: min_timestep returns the timestep it finds, over
 every interval of the index

---
 esat/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..6bcc1a7 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -42,17 +42,18 @@ def min_timestep(data: pd.DataFrame):
     int
         Minimum timestep.
     """
-    time_delta = data.index[1: -1] - data.index[0:-2]
+    time_delta = data.index[1:] - data.index[:-1]
     if time_delta.min().days >= 1:
         resample = f"{int(time_delta.min().days)}D"
     elif time_delta.min().seconds < 60:
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
+    elif time_delta.min().seconds >= 60 * 60 and time_delta.min().days <= 0:
         resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = "D"
+    return resample
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From fa9f90692574b7a43d5cd205620d58b8d84f077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 037/127] fix: the feature RMSE is the root of the mean squared
 error for any number of samples

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..cac02a7 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(float(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2))), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From f7a66669374c25e8561de36c468074f5ac666414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 038/127] fix: the model statistics scale the residuals by the
 uncertainty that the model used

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index cac02a7..987a652 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From c863000c5972519ccca4a4e6a951397f22dd8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 039/127] fix: the aggregated input data is stored where the
 plots read it

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index b096a1d..086aa51 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -475,7 +475,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
+        self.input_data_plot = agg_input
         self.uncertainty_data_plot = agg_uncertainty
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
-- 
2.43.0


From 6f153d500653d184b90969ff614c38394eaec79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 040/127] fix: the perturbation leaves the cells outside
 perturb_percent unchanged

---
 eval/perturbation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..7798f90 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -179,10 +179,9 @@ class Perturbation:
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
+            i_m[:, i][i_mask] = 1.0
             ij_u = i_u[:, i]
-            ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
+            ij_u = ij_u * i_m[:, i]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From 90d5da798ed3f3f6297cf75e296f0abc6f801b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 041/127] fix: the factor catalog counts every model and a
 factor keeps the threshold it is given

---
 eval/factor_catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..aa26117 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -34,6 +34,7 @@ class Factor:
         self.correlation = [ 0.0 if method == "raae" else 1.0]
         self.samples = len(contribution)
         self.method = method
+        self.threshold = threshold
         if threshold is None:
             if method == "raae":
                 self.threshold = 0.1
@@ -285,7 +286,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
+        if self.model_count <= model_index:
             self.model_count = model_index+1
         add_new = False
         if self.idx == 0:
-- 
2.43.0


From d2e94588b4e717cc4a3202d80f2861f2b6f8ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 042/127] fix: determine_map returns a one to one map from each
 base factor to its model factor

---
 eval/factor_comparison.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..9dac749 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -579,15 +578,15 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
+                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=1)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
+                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=1)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
@@ -595,13 +594,12 @@ class FactorCompareV2:
             if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
                 model_mapping = optimal_indices
             else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+                model_mapping = linear_sum_assignment(mapping_matrix, maximize=maximize)[1]
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From ff911fa9e7d425fbd499d7cddcf3250e1b25058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 043/127] fix: the factor comparison reads WH in its own layout
 and the uncertainty for the base Q

---
 eval/factor_comparison.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 9dac749..ac2d313 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -229,11 +229,9 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
-
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
@@ -393,7 +391,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From ca563954a3ff46f842a5b1e698ef477292966911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 044/127] fix: Q(robust) of the simulated model is the loss
 value

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 603170a..c23c092 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -290,7 +290,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From bb439cff2df5220ad9bcf66b3a2aa75f797551cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 045/127] fix: the simulator can simulate a single factor

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index c23c092..d16f177 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -147,7 +147,7 @@ class Simulator:
             factor_list = list(range(self.factors_n))
             for i in range(self.features_n):
                 # the number of factors which contribute to current feature
-                factor_features_n = self.rng.integers(1, self.factors_n, 1)
+                factor_features_n = self.rng.integers(1, max(self.factors_n, 2), 1)
                 # the specific factors which contribute to current feature
                 factor_feature_selected = self.rng.choice(factor_list, size=factor_features_n, replace=False)
                 for j in factor_feature_selected:
-- 
2.43.0


From 86102f9be013620fd2b60b2b6eddfb64ba1ae980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 046/127] fix: the simulator does not modify the custom
 profiles of the caller

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index d16f177..1380c6e 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From bd53549cf6087e6ef66aa13929f6feee0b027437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 047/127] fix: the periodic curve of the simulator always
 covers every sample

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 1380c6e..b698c11 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -216,8 +216,8 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
+            curve_a = np.linspace(-np.pi, np.pi, max(int(self.samples_n / n_periods), 2))
+            curve_x = np.tile(curve_a[0:len(curve_a) - 1], int(np.ceil(self.samples_n / (len(curve_a) - 1))))
             curve_x = curve_x[0:self.samples_n]
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
-- 
2.43.0


From f6325df8c6f44a397323347a7887181d323cbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 048/127] fix: ws-nmf updates H from the positive and negative
 parts of the products, so negative data no longer gives NaN

---
 esat/model/ws_nmf.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index ecc6cc2..1da6686 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -71,9 +71,6 @@ class WSNMF:
         if hold_h:
             return W, H
 
-        W_n = (np.abs(W) - W) / 2.0
-        W_p = (np.abs(W) + W) / 2.0
-
         _H = []
         for j in range(V.shape[1]):
             wej = We[:, j]
@@ -82,13 +79,14 @@ class WSNMF:
             uv_j = uV[:, j]
             uv_j = uv_j.reshape(len(uv_j), 1)
 
-            n1 = np.matmul(uv_j.T, W_p)[0]
-            d1 = np.matmul(uv_j.T, W_n)[0]
+            # The positive and the negative part of the products, which are not negative even when V and W are.
+            uvw = np.matmul(uv_j.T, W)[0]
+            n1 = (np.abs(uvw) + uvw) / 2.0
+            d1 = (np.abs(uvw) - uvw) / 2.0
 
-            n2a = np.matmul(W_n.T, wej_d)
-            n2b = np.matmul(n2a, W_n)
-            d2a = np.matmul(W_p.T, wej_d)
-            d2b = np.matmul(d2a, W_p)
+            wtw = np.matmul(np.matmul(W.T, wej_d), W)
+            n2b = (np.abs(wtw) - wtw) / 2.0
+            d2b = (np.abs(wtw) + wtw) / 2.0
 
             hj = H.T[j]
             n2 = np.matmul(hj, n2b)
-- 
2.43.0


From 06331de508c2235675381a3061bf469ff47d7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 049/127] fix: BS-DISP counts the swaps of one run, not of
 every run of the instance

---
 esat/error/bs_disp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 8bf904d..b51dae6 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -256,6 +256,9 @@ class BSDISP:
         self.compiled_results["conc_min"] = conc_min
         self.compiled_results["dQ_drop"] = dQ_drop
 
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.disp_swap = 0
         for result_i in self.disp_results.keys():
             self.swap_table = self.swap_table + self.disp_results[result_i].swap_table
             self.count_table = self.count_table + self.disp_results[result_i].count_table
-- 
2.43.0


From b181d25a13d3152fa04e85fc1077784e5491fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 050/127] fix: ConstrainedModel.save pickles the constrained
 model instance, so that load returns it

---
 esat/rotational/constrained.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 124088a..3c8e94c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1172,11 +1172,16 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            file_path = self.constrained_model.save(
-                model_name=model_name,
-                output_directory=output_directory,
-                pickle_model=pickle_model,
-                header=self.dh.features)
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                with open(file_path, "wb") as save_file:
+                    pickle.dump(self, save_file)
+                    logger.info(f"Constrained model saved to pickle file: {file_path}")
+            else:
+                file_path = self.constrained_model.save(
+                    model_name=model_name,
+                    output_directory=output_directory,
+                    header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
             metadata = {**self.constrained_model.metadata, **self.metadata}
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
-- 
2.43.0


From 9ac745d062da3190ba85349beb1ec911e8fede9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 051/127] fix: np_encoder writes arrays and sets instead of
 null

---
 esat/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/utils.py b/esat/utils.py
index 6bcc1a7..3cd0d37 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -26,6 +26,10 @@ def np_encoder(object):
     """
     if isinstance(object, np.generic):
         return object.item()
+    if isinstance(object, np.ndarray):
+        return object.tolist()
+    if isinstance(object, (set, frozenset)):
+        return list(object)
 
 
 def min_timestep(data: pd.DataFrame):
-- 
2.43.0


From a26b05f18c450cf6524cf60fb64719a493b9b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 052/127] fix: load_pmf_output passes only the factor columns
 of the PMF5 profiles, not the species names

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index ac2d313..d81b73d 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -193,7 +193,7 @@ class FactorCompare:
         pmf_contribution_df = pmf_contribution_df.astype(factor_types)
         fc = FactorCompare(input_df=input_df,
                            uncertainty_df=uncertainty_df,
-                           base_profile_df=pmf_profiles_df,
+                           base_profile_df=pmf_profiles_df[list(factor_columns)],
                            base_contribution_df=pmf_contribution_df,
                            batch_sa=batch_sa
                            )
-- 
2.43.0


From a6fd6fa2ac0af9577dcbc7d0952001fca43ee7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 053/127] fix: the factor comparison skips the models that a
 batch does not have

---
 eval/factor_comparison.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index d81b73d..d3dc0d5 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -257,7 +257,7 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -268,7 +268,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -310,7 +310,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From 0afc7860bc9bdb2477d64534d995b8942f626f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 054/127] fix: a raae catalog that compares profiles only joins
 the most correlated factor, not the least correlated one

---
 eval/factor_catalog.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index aa26117..0b7042c 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -229,10 +229,11 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        use_error = self.method == "raae" and not profile_only
+        best_corr = 1.0 if use_error else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
-            if self.method == "raae":
+            if use_error:
                 if corr < best_corr:
                     best_corr = corr
                     best_factor = f_label
@@ -292,7 +293,7 @@ class FactorCatalog:
         if self.idx == 0:
             add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
-        if self.method == "raae":
+        if self.method == "raae" and not profile_only:
             if best_corr > self.threshold:
                 add_new = True
         else:
-- 
2.43.0


From 7df75c82dd854c8cdcdc347c916177e788d1fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 055/127] fix: a factor that matches no cataloged factor starts
 a new one for every threshold

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 0b7042c..5044735 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -290,9 +290,9 @@ class FactorCatalog:
         if self.model_count <= model_index:
             self.model_count = model_index+1
         add_new = False
-        if self.idx == 0:
-            add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
+        if best_factor is None:
+            add_new = True
         if self.method == "raae" and not profile_only:
             if best_corr > self.threshold:
                 add_new = True
-- 
2.43.0


From f6661a976dc0682f0c2cdaef14c451a2a495bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 056/127] fix: comparing a factor with a raae catalog returns
 the factor with the smallest error, not the largest

---
 eval/factor_catalog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 5044735..d695b0e 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -394,11 +394,16 @@ class FactorCatalog:
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
+            profile_only = factor.samples != f.samples
             for fi in tqdm(factor.factor, desc="Comparing Factor Members", leave=False):
-                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
+                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=profile_only)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            if self.method == "raae" and not profile_only:
+                if best_factor is None or mean_corr < best_corr:
+                    best_corr = mean_corr
+                    best_factor = f_label
+            elif mean_corr > best_corr:
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From a5abc3350fc053860093e0cc698769d3e15599b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 057/127] fix: the perturbation correlation plot shows each
 metric under its own factor

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 7798f90..09c699c 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -374,7 +374,7 @@ class Perturbation:
         factor_corr_fig = make_subplots()
         factor_corr = np.zeros(shape=(self.models, len(factor_labels)))
         for i, v in self.perturb_mapping.items():
-            factor_corr[i] = np.array(self.perturb_correlations[i])[v]
+            factor_corr[i] = np.array(self.perturb_correlations[i])
         for i in range(len(factor_labels)):
             i_corr_means = factor_corr[:, i]
             factor_corr_fig.add_trace(go.Box(y=i_corr_means, name=factor_labels[i]))
-- 
2.43.0


From b8850b8842cc8bad6816f01997d73d76985fc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 058/127] fix: perturbed models of a single factor can be
 compared

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 09c699c..18d7421 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -255,7 +255,7 @@ class Perturbation:
         min_perturb_H = np.min(self.perturb_H, axis=2)
         max_perturb_H = np.max(self.perturb_H, axis=2)
 
-        factor_i = 1
+        factor_i = min(1, self.factors - 1)
         f1_dict = {
             "Base": base_H[factor_i],
             "Mean Perturb": mean_perturb_H[factor_i],
-- 
2.43.0


From 4844b4066277ef6bde250dcb087da7e3c8777e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 059/127] fix: the factor catalog works outside of notebooks
 with ipywidgets

---
 eval/factor_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index d695b0e..584d30a 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 import pandas as pd
-from tqdm.notebook import tqdm, tnrange
+from tqdm.auto import tqdm, trange as tnrange
 from esat_eval.factor_comparison import FactorCompare
 
 logger = logging.getLogger(__name__)
-- 
2.43.0


From 5bfaf2e81b64722b10469e18026accce6346f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 060/127] fix: the logistic curve of the simulator accepts
 frequencies above one

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index b698c11..12f340a 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
             n_periods = int(1.0/frequency) + 1
             for i in range(0, n_periods+1):
                 if i == n_periods:
-                    steps = self.samples_n - (2 * int(self.samples_n/n_periods))
+                    steps = max(self.samples_n - (2 * int(self.samples_n/n_periods)), 0)
                 else:
                     steps = int(self.samples_n/n_periods)
                 if i % 2 == 0:
-- 
2.43.0


From 6275af8c3f15d90734552b190de310d1b144cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 061/127] fix: the uniform curve of the simulator respects the
 minimum

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 12f340a..362c606 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -222,7 +222,7 @@ class Simulator:
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-            curve_y = self.rng.random(size=(self.samples_n, 1)) * float(maximum)
+            curve_y = minimum + self.rng.random(size=(self.samples_n, 1)) * float(maximum - minimum)
         curve_y = curve_y[:self.samples_n]
         y_data = self.rng.normal(loc=curve_y, scale=scale, size=curve_y.shape).flatten()
         y_data[y_data <= 0.0] = 1e-12
-- 
2.43.0


From 1fc0ee7c1728aceb68907917f9c3ffb93170c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 062/127] fix: the simulator plots the comparison of the first
 model when asked for it

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 362c606..a0c57bb 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -379,7 +379,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -457,7 +457,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From 5dc952a2232b5c5c9c398e9529367346cb883fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 063/127] fix: the simulator plots the profile comparison of a
 single factor and of a perfect match

---
 eval/simulator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index a0c57bb..82e57d3 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -462,7 +462,6 @@ class Simulator:
 
         factor_compare = self.factor_compare.model_results[model_i]
 
-        color_map = px.colors.sample_colorscale("plasma", [n / (self.factors_n - 1) for n in range(self.factors_n)])
         r_color_map = px.colors.sample_colorscale("jet", [n / (100 - 1) for n in range(100)])
 
         syn_H = self.syn_profiles
@@ -497,7 +496,7 @@ class Simulator:
                 go.Bar(name=f"Modelled Factor {mod_i+1}", x=self.syn_columns, y=norm_H[mod_i],
                        marker_color="green"), row=1, col=1)
             i_r2 = factor_compare['best_factor_r'][i - 1]
-            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[int(100 * i_r2)],
+            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[min(int(100 * i_r2), 99)],
                                    text=np.round(i_r2, 4), textposition="inside", hoverinfo='text',
                                    hovertemplate="R2: %{x:4f}<extra></extra>", showlegend=False), row=2, col=1)
             h_fig.add_trace(
-- 
2.43.0


From bb599628f2b926edea29b913353a0e43f62a0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 064/127] fix: the default optimal block is a number of samples
 of at least one

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 086aa51..484adde 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -442,9 +442,9 @@ class DataHandler:
                 optimal_block = []
                 for opt in optimal_blocks:
                     optimal_block.append(opt.b_star_cb)
-                self.optimal_block = math.floor(np.mean(optimal_block))
+                self.optimal_block = max(math.floor(np.mean(optimal_block)), 1)
         except ValueError as e:
-            self.optimal_block = int(input_data.shape[1]/5)
+            self.optimal_block = max(int(input_data.shape[0]/5), 1)
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
 
     def _aggregate_data(self):
-- 
2.43.0


From 641c91ece29812216d32fbd69a84e2ca3e317715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 065/127] fix: the available memory is reported in the unit
 that it is given in

---
 esat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 3cd0d37..a661a25 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -118,13 +118,13 @@ def memory_estimate(n_features, n_samples, factors, cores: int = None):
         available_string = f"{available_memory_bytes / (1024 ** 3)} GB"
     elif max_bytes / (1024 ** 2) > 1.0:
         byte_string =  f"{np.round(max_bytes / (1024 ** 2), 4)} MB"
-        available_string = f"{available_memory_bytes / (1024 ** 2)} GB"
+        available_string = f"{available_memory_bytes / (1024 ** 2)} MB"
     elif max_bytes / (1024) > 1.0:
         byte_string =  f"{np.round(max_bytes / (1024), 4)} KB"
-        available_string = f"{available_memory_bytes / (1024)} GB"
+        available_string = f"{available_memory_bytes / (1024)} KB"
     else:
         byte_string =  f"{np.round(max_bytes, 4)} Bytes"
-        available_string = f"{available_memory_bytes} GB"
+        available_string = f"{available_memory_bytes} Bytes"
 
     return {
         "max_cores": max_cores,
-- 
2.43.0


From e464ed0a9def34eec840e277f9697fe480c4b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 066/127] fix: the block length estimator uses the largest
 significant lag when no lags are insignificant

---
 esat/model/recombinator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/model/recombinator.py b/esat/model/recombinator.py
index 97516a0..8343a62 100644
--- a/esat/model/recombinator.py
+++ b/esat/model/recombinator.py
@@ -167,8 +167,9 @@ def optimal_block_length(data: np.ndarray) -> tp.Sequence[OptimalBlockLength]:
         if temp3.size == 0:
             # this means that NO collection of kn auto-correlations were all
             # insignificant, so pick largest significant lag
+            # (row i of temp holds the auto-correlation of lag i + 1)
             m_hat = max(
-                np.flatnonzero(np.abs(temp) > (c * np.sqrt(np.log10(n) / n))))
+                np.flatnonzero(np.abs(temp) > (c * np.sqrt(np.log10(n) / n)))) + 1
         else:
             # if more than one collection is possible, choose the smallest m
             m_hat = temp3[0, 0]
-- 
2.43.0


From 66d52f5acdeb13b73ea2aadf98c9c750d8494382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:41 +0000
Subject: [PATCH 067/127] fix: the time series plot wraps a feature index by
 the number of features

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 484adde..2536c79 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -655,7 +655,7 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[0]
+            feature_selection = feature_selection % self.input_data_plot.shape[1]
             feature_selection = self.input_data_plot.columns[feature_selection]
             feature_label = [feature_selection]
         else:
-- 
2.43.0


From 91480794b612510e1f7664ff5b17de2d317946ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:41 +0000
Subject: [PATCH 068/127] fix: a dataset from dataframes can be plotted

---
 esat/data/datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 2536c79..02a54bf 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -912,4 +912,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 7d1a03f14423b80bec6627881df36dfcbfb45e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:41 +0000
Subject: [PATCH 069/127] fix: the estimated plots compare the samples that the
 model was trained on

---
 esat/data/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 987a652..df1084f 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -302,7 +302,7 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature]
+        observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
         # Perform regression
@@ -368,11 +368,11 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature].values
-        predicted_data = self.V_prime_plot.iloc[:, feature_idx]
+        observed_data = self.dh.input_data_df[feature].values
+        predicted_data = self.V_prime_plot.iloc[:, feature_idx].values
 
         data_df = pd.DataFrame(data={"observed": observed_data, "predicted": predicted_data},
-                               index=self.dh.input_data_plot.index)
+                               index=self.dh.input_data_df.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
         data_df = data_df.resample(min_timestep(data_df)).mean()
-- 
2.43.0


From a11569c89e84305bc7db90419507592ab940cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 070/127] fix: the temporal residuals are those of the selected
 feature and the modelled samples

---
 esat/data/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index df1084f..d6446d6 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1010,7 +1010,7 @@ class BatchAnalysis:
             feature_label = features[feature_idx]
             col_idx = feature_idx
         else:
-            V = self.data_handler.input_data_plot.values
+            V = self.data_handler.input_data_df.values
             if len(self.aggregated_output) == 0:
                 for i, r in enumerate(self.batch_sa.results):
                     if r is not None:
@@ -1019,7 +1019,7 @@ class BatchAnalysis:
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
             col_idx = feature_idx
-            x = self.data_handler.input_data_plot.index
+            x = self.data_handler.input_data_df.index
 
         temporal_fig = go.Figure()
         # Add input trace
-- 
2.43.0


From af73706af1201f93d0c14df3b4179b38adeff7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 071/127] fix: contributions plotted with an average of one
 have an average of one

---
 esat/data/analysis.py          | 4 ++--
 esat/rotational/constrained.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index d6446d6..6574055 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -736,7 +736,7 @@ class ModelAnalysis:
             return
 
         factors_contr = self.model.W
-        normalized_factors_contr = factors_contr / factors_contr.sum(axis=0)
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         f1_idx = factor_1 - 1
         f2_idx = factor_2 - 1
         fig = go.Figure(data=go.Scatter(
@@ -798,7 +798,7 @@ class ModelAnalysis:
             feature_fig.show()
 
         factors_contr = self.model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1]+1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 3c8e94c..26c35ab 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1062,8 +1062,8 @@ class ConstrainedModel:
         b_W = self.base_model.W
         c_W = self.constrained_model.W
 
-        b_normalized_factors_contr = b_W / b_W.sum(axis=0)
-        c_normalized_factors_contr = c_W / c_W.sum(axis=0)
+        b_normalized_factors_contr = b_W / b_W.mean(axis=0)
+        c_normalized_factors_contr = c_W / c_W.mean(axis=0)
 
         if show_delta:
             arrows = ((c_normalized_factors_contr[:, f1_idx] - b_normalized_factors_contr[:, f1_idx]),
@@ -1132,7 +1132,7 @@ class ConstrainedModel:
         feature_fig.show()
 
         factors_contr = self.constrained_model.W
-        normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
+        normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
         contr_df.index = pd.to_datetime(self.dh.input_data.index)
-- 
2.43.0


From 885f19791d19c1bb6a65685eacd04aa4682d88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 072/127] fix: the plots of a model analysis work without a
 selected model

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 6574055..64c2003 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -40,7 +40,7 @@ class ModelAnalysis:
         """
         self.dh = datahandler
         self.model = model
-        self.selected_model = selected_model
+        self.selected_model = 0 if selected_model is None else selected_model
         self.statistics = None
         self.residual_metrics = None
         self.V_prime_k = None
-- 
2.43.0


From 967e9e5888a70bd84037835f1b3686bcc1e9fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 073/127] fix: the axes of the constrained G-space plot name
 the factors that they show

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26c35ab..c92c91e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1087,8 +1087,8 @@ class ConstrainedModel:
                     go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx],
                                mode='markers', name="Base"))
         fp_g_fig.update_layout(title=f"Constrained G-Space Plot", width=800, height=800)
-        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
-        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
         fp_g_fig.show()
 
     def plot_factor_contributions(self, feature_idx, threshold: float = 0.06):
-- 
2.43.0


From 7b4dd0c290574b4b4b0380eff41c572e25482c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 074/127] fix: the profile plot highlights the constrained
 features

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index c92c91e..fe10063 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -943,7 +943,7 @@ class ConstrainedModel:
                     marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
         # Highlight the factor feature elements which were constrained
         for c_key, constraint in self.constraints.items():
-            if constraint.constraint_type == "feature" and constraint.index[0] == factor_idx:
+            if constraint.target == "feature" and constraint.index[0] == factor_idx:
                 marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
 
         fig = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
-- 
2.43.0


From 6e114764c7324351948b507c4f47a4049aa7793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 075/127] fix: the constrained contribution plots use the
 features and samples of the model

---
 esat/rotational/constrained.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index fe10063..7c82aae 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -980,14 +980,14 @@ class ConstrainedModel:
         i_W = self.constrained_model.W[:, factor_idx]
 
         b_norm_contr = b_W / b_W.mean()
-        b_data_df =  copy.copy(self.dh.input_data)
+        b_data_df =  copy.copy(self.dh.input_data_df)
         b_data_df[factor_label] = b_norm_contr
         b_data_df.index = pd.to_datetime(b_data_df.index)
         b_data_df = b_data_df.sort_index()
         b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
 
         i_norm_contr = i_W / i_W.mean()
-        i_data_df =  copy.copy(self.dh.input_data)
+        i_data_df =  copy.copy(self.dh.input_data_df)
         i_data_df[factor_label] = i_norm_contr
         i_data_df.index = pd.to_datetime(i_data_df.index)
         i_data_df = i_data_df.sort_index()
@@ -1110,7 +1110,7 @@ class ConstrainedModel:
             feature_idx = feature_idx - 1
         else:
             feature_idx = 0
-        x_label = self.dh.input_data.columns[feature_idx]
+        x_label = self.dh.input_data_df.columns[feature_idx]
         factors_data = self.constrained_model.H
         normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
 
@@ -1135,7 +1135,7 @@ class ConstrainedModel:
         normalized_factors_contr = factors_contr / factors_contr.mean(axis=0)
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
-        contr_df.index = pd.to_datetime(self.dh.input_data.index)
+        contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
         contr_df = contr_df.sort_index()
         contr_df = contr_df.resample(min_timestep(contr_df)).mean()
 
-- 
2.43.0


From 4e12373cddc33aa1f4a10fe154d33eca62600ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 076/127] fix: the BS-DISP plots fall back to the documented dQ

---
 esat/error/bs_disp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index b51dae6..ccb8ef4 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -340,7 +340,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
@@ -382,7 +382,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
-- 
2.43.0


From 874f01f588255cf02ca69241c99d5364a1e1a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 077/127] fix: the optimized training reads its matrices by row
 and column, whatever their layout in memory

---
 rust/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9412944..6d6aa85 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -259,12 +259,12 @@ fn ls_nmf<'py>(
         )
     } else {
         // Convert to nalgebra OMatrix
-        let v = OMatrix::<f32, Dyn, Dyn>::from_vec(v.dims()[0], v.dims()[1], v.to_vec().unwrap().to_owned());
-        let u = OMatrix::<f32, Dyn, Dyn>::from_vec(u.dims()[0], u.dims()[1], u.to_vec().unwrap().to_owned());
-        let we = OMatrix::<f32, Dyn, Dyn>::from_vec(we.dims()[0], we.dims()[1], we.to_vec().unwrap().to_owned());
+        let v = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(v_arr.nrows(), v_arr.ncols(), v_arr.iter().cloned());
+        let u = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(u_arr.nrows(), u_arr.ncols(), u_arr.iter().cloned());
+        let we = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(we_arr.nrows(), we_arr.ncols(), we_arr.iter().cloned());
 
-        let w = OMatrix::<f32, Dyn, Dyn>::from_vec(w.dims()[1], w.dims()[0], w.to_vec().unwrap().to_owned()).transpose();
-        let h = OMatrix::<f32, Dyn, Dyn>::from_vec(h.dims()[1], h.dims()[0], h.to_vec().unwrap().to_owned()).transpose();
+        let w = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(w_arr.nrows(), w_arr.ncols(), w_arr.iter().cloned());
+        let h = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(h_arr.nrows(), h_arr.ncols(), h_arr.iter().cloned());
 
         // Call CPU update function (to be implemented)
         ls_nmf_update_cpu(
@@ -592,12 +592,12 @@ fn ws_nmf<'py>(
         )
     } else {
         // Convert to nalgebra OMatrix
-        let v = OMatrix::<f32, Dyn, Dyn>::from_vec(v.dims()[0], v.dims()[1], v.to_vec().unwrap());
-        let u = OMatrix::<f32, Dyn, Dyn>::from_vec(u.dims()[0], u.dims()[1], u.to_vec().unwrap());
-        let we = OMatrix::<f32, Dyn, Dyn>::from_vec(we.dims()[0], we.dims()[1], we.to_vec().unwrap());
+        let v = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(v_arr.nrows(), v_arr.ncols(), v_arr.iter().cloned());
+        let u = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(u_arr.nrows(), u_arr.ncols(), u_arr.iter().cloned());
+        let we = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(we_arr.nrows(), we_arr.ncols(), we_arr.iter().cloned());
 
-        let w = OMatrix::<f32, Dyn, Dyn>::from_vec(w.dims()[1], w.dims()[0], w.to_vec().unwrap()).transpose();
-        let h = OMatrix::<f32, Dyn, Dyn>::from_vec(h.dims()[1], h.dims()[0], h.to_vec().unwrap()).transpose();
+        let w = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(w_arr.nrows(), w_arr.ncols(), w_arr.iter().cloned());
+        let h = OMatrix::<f32, Dyn, Dyn>::from_row_iterator(h_arr.nrows(), h_arr.ncols(), h_arr.iter().cloned());
 
         // Call CPU update function (to be implemented)
         ws_nmf_update_cpu(
-- 
2.43.0


From 48c35c55d1d94b271ab4c6be3a7939116bfcaa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 078/127] fix: the optimized ws-nmf updates H from the positive
 and negative parts of the products, as the Python update

---
 rust/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 6d6aa85..5419a76 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -706,20 +706,18 @@ fn ws_nmf_update_cpu<'py>(
 
         // Update H
         if !hold_h || (delay_h > 0 && i > delay_h) {
-            let w_neg = (&new_w.abs() - &new_w) / 2.0;
-            let w_pos = (&new_w.abs() + &new_w) / 2.0;
-
             for j in 0..we.ncols() {
                 let we_j_diag = &we_col_diags[j];
                 let v_j = &vj_cols[j];
 
-                let n1 = v_j.transpose() * &w_pos;
-                let d1 = v_j.transpose() * &w_neg;
+                // The positive and the negative part of the products, as in the Python implementation
+                let uvw = v_j.transpose() * &new_w;
+                let n1 = (&uvw.abs() + &uvw) / 2.0;
+                let d1 = (&uvw.abs() - &uvw) / 2.0;
 
-                let n2a = w_neg.transpose() * we_j_diag;
-                let n2b = &n2a * &w_neg;
-                let d2a = w_pos.transpose() * we_j_diag;
-                let d2b = &d2a * &w_pos;
+                let wtw = new_w.transpose() * we_j_diag * &new_w;
+                let n2b = (&wtw.abs() - &wtw) / 2.0;
+                let d2b = (&wtw.abs() + &wtw) / 2.0;
 
                 let h_j = new_h.column(j).transpose();
                 let n2 = &h_j * &n2b;
-- 
2.43.0


From 8aadde062cea0bdcbbda9ca63f0d6e5380a98346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 079/127] fix: the optimized training converges at the same
 iteration, with the same step count, as the Python training

---
 rust/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 5419a76..33d0d42 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -368,11 +368,11 @@ fn ls_nmf_update_cpu<'py>(
         q_list_full.push_back(q);
         converge_i = i;
 
-        if (q_list.len() as i32) >= converge_n {
+        if (q_list.len() as i32) > converge_n {
+            q_list.pop_front();
             if q_list.front().unwrap() - q_list.back().unwrap() < converge_delta {
                 converged = true;
             }
-            q_list.pop_front();
         }
 
         let now = Instant::now();
@@ -396,6 +396,9 @@ fn ls_nmf_update_cpu<'py>(
             break;
         }
     }
+    if !converged {
+        converge_i = max_iter;
+    }
     term.move_cursor_to(0, location_i).unwrap();
     pb.abandon_with_message(format!("Model: {}, Q(True): {:.4}, MSE: {:.4}", model_i, q, q / datapoints));
 
@@ -475,11 +478,11 @@ fn ls_nmf_update_gpu<'py>(
         q_list_full.push_back(q);
         converge_i = i;
 
-        if (q_list.len() as i32) >= converge_n {
+        if (q_list.len() as i32) > converge_n {
+            q_list.pop_front();
             if q_list.front().unwrap() - q_list.back().unwrap() < converge_delta {
                 converged = true;
             }
-            q_list.pop_front();
         }
 
         let now = Instant::now();
@@ -503,6 +506,9 @@ fn ls_nmf_update_gpu<'py>(
             break;
         }
     }
+    if !converged {
+        converge_i = max_iter;
+    }
     term.move_cursor_to(0, location_i).unwrap();
     pb.abandon_with_message(format!("Model: {}, Q(True): {:.4}, MSE: {:.4}", model_i, q, q / datapoints));
 
@@ -738,11 +744,11 @@ fn ws_nmf_update_cpu<'py>(
         q_list_full.push_back(q);
         converge_i = i;
 
-        if (q_list.len() as i32) >= converge_n {
+        if (q_list.len() as i32) > converge_n {
+            q_list.pop_front();
             if q_list.front().unwrap() - q_list.back().unwrap() < converge_delta {
                 converged = true;
             }
-            q_list.pop_front();
         }
 
         let now = Instant::now();
@@ -765,6 +771,9 @@ fn ws_nmf_update_cpu<'py>(
             break;
         }
     }
+    if !converged {
+        converge_i = max_iter;
+    }
     term.move_cursor_to(0, location_i).unwrap();
     pb.abandon_with_message(format!("Model: {}, Q(True): {:.4}, MSE: {:.4}", model_i, q, q / datapoints));
 
@@ -856,11 +865,11 @@ fn ws_nmf_update_gpu<'py>(
         q_list_full.push_back(q);
         converge_i = i;
 
-        if (q_list.len() as i32) >= converge_n {
+        if (q_list.len() as i32) > converge_n {
+            q_list.pop_front();
             if q_list.front().unwrap() - q_list.back().unwrap() < converge_delta {
                 converged = true;
             }
-            q_list.pop_front();
         }
 
         let now = Instant::now();
@@ -883,6 +892,9 @@ fn ws_nmf_update_gpu<'py>(
             break;
         }
     }
+    if !converged {
+        converge_i = max_iter;
+    }
     term.move_cursor_to(0, location_i).unwrap();
     pb.abandon_with_message(format!("Model: {}, Q(True): {:.4}, MSE: {:.4}", model_i, q, q / datapoints));
 
-- 
2.43.0


From 056e18a47c2b953a120388d72c0b57a08240c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 080/127] fix: the optimized training accepts a model index
 above 127

---
 rust/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 33d0d42..6c806fc 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -203,7 +203,7 @@ fn ls_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -306,7 +306,7 @@ fn ls_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -420,7 +420,7 @@ fn ls_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -543,7 +543,7 @@ fn ws_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -644,7 +644,7 @@ fn ws_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -795,7 +795,7 @@ fn ws_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
-- 
2.43.0


From 55fdac2ba26116c3353e9ea483c7561f47b1a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 081/127] fix: a custom update step is not ignored by an
 optimized model

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 30a9055..ab63c37 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -400,7 +400,7 @@ class SA:
         self.converged = False
         self.converge_steps = 0
 
-        if self.optimized:
+        if self.optimized and update_step is None:
             t0 = time.time()
             try:
                 results_dict = self.optimized_update(
-- 
2.43.0


From 65ec503cad62b1f7aa982f47a911f2d20c9b6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 082/127] fix: the constrained profile plot draws the
 highlights of constrained features

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 7c82aae..c0c3549 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -955,7 +955,7 @@ class ConstrainedModel:
                              marker_line_color='rgb(186,186,186)', marker_line_width=1.5, opacity=0.6,
                              name='Base Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.add_trace(go.Bar(x=self.dh.features, y=i_factor_conc_sum, marker_color='rgb(134,236,168)',
-                             marker_line_color='rgb(125,220,157)', marker_line_width=1.5, opacity=0.6,
+                             marker_line_color=marker_line_colors, marker_line_width=1.5, opacity=0.6,
                              name='Constrained Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.update_layout(width=1200, height=600, title=f"Constrained Factor Profile - Factor {factor_label}",
                           barmode='group', scattermode='group', hovermode="x unified")
-- 
2.43.0


From e4457b1ed354bd0d35cdea3a22bd8969972502fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 083/127] fix: constrained fingerprints of more than 10 factors
 can be plotted

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index c0c3549..410be95 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1021,11 +1021,11 @@ class ConstrainedModel:
         colors = px.colors.sequential.Viridis_r
         for idx in range(self.base_model.factors - 1, -1, -1):
             fp_factors_fig.add_trace(go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=b_normalized[idx],
-                                            marker_color=colors[idx], hovertext="Base", legendgroup=f"group{idx}",
+                                            marker_color=colors[idx % len(colors)], hovertext="Base", legendgroup=f"group{idx}",
                                             showlegend=False), row=1, col=1)
             fp_factors_fig.add_trace(
                 go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=c_normalized[idx],
-                       marker_color=colors[idx], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
+                       marker_color=colors[idx % len(colors)], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
         fp_factors_fig.update_layout(title=f"Constrained Factor Fingerprints", width=1200, height=800,
                                      barmode='stack', hovermode='x unified')
         fp_factors_fig.update_yaxes(title_text="% Feature Concentration", range=[0, 100])
-- 
2.43.0


From bea0ac43f7c354b385ee971467521e635104360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 084/127] fix: large datasets with repeated or missing values
 are aggregated for plotting

---
 esat/data/datahandler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 02a54bf..e129192 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -464,19 +464,20 @@ class DataHandler:
             self.uncertainty_data_plot = self.uncertainty_data
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
-        agg_input = pd.DataFrame()
-        agg_uncertainty = pd.DataFrame()
+        agg_input = {}
+        agg_uncertainty = {}
         for col in self.input_data.columns:
-            quantiles = self.input_data[col].quantile(bins)
-            labels = range(self.max_plotting_n)
+            # Repeated values give equal quantiles, which delimit a single bin
+            quantiles = self.input_data[col].quantile(bins).drop_duplicates()
+            labels = range(len(quantiles) - 1)
             binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
             agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.input_data_plot = agg_input
-        self.uncertainty_data_plot = agg_uncertainty
+        self.input_data_plot = pd.DataFrame(agg_input)
+        self.uncertainty_data_plot = pd.DataFrame(agg_uncertainty)
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
     def aggregate_output(self, output_array: np.ndarray) -> pd.DataFrame:
-- 
2.43.0


From d6dfdbf3768a3bae330af1c2460cdc066709410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 085/127] fix: plots that relate features or times use the
 samples of a large dataset, not quantiles per feature

---
 esat/data/datahandler.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e129192..7a12707 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -78,6 +78,8 @@ class DataHandler:
 
         self.input_data_plot = None
         self.uncertainty_data_plot = None
+        # The samples behind the plotting data, for plots that relate features or times
+        self.plot_samples = None
         self.max_plotting_n = max_plotting_n
 
         self.sn_mask = None
@@ -454,6 +456,7 @@ class DataHandler:
         """
         self._agg_bins = {}
         self._agg_labels = {}
+        self.plot_samples = self.input_data
         if self.input_data is None or self.uncertainty_data is None:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
@@ -577,17 +580,17 @@ class DataHandler:
         y_idx: int
             The feature index for the y-axis values.
         """
-        if x_idx > self.input_data_plot.shape[1] - 1 or x_idx < 0:
-            logger.info(f"Invalid x feature index provided, must be between 0 and {self.input_data_plot.shape[1]}")
+        if x_idx > self.plot_samples.shape[1] - 1 or x_idx < 0:
+            logger.info(f"Invalid x feature index provided, must be between 0 and {self.plot_samples.shape[1]}")
             return
-        x_label = self.input_data_plot.columns[x_idx]
-        if y_idx > self.input_data_plot.shape[1] - 1 or y_idx < 0:
-            logger.info(f"Invalid y feature index provided, must be between 0 and {self.input_data_plot.shape[1]}")
+        x_label = self.plot_samples.columns[x_idx]
+        if y_idx > self.plot_samples.shape[1] - 1 or y_idx < 0:
+            logger.info(f"Invalid y feature index provided, must be between 0 and {self.plot_samples.shape[1]}")
             return
-        y_label = self.input_data_plot.columns[y_idx]
+        y_label = self.plot_samples.columns[y_idx]
 
-        x_data = self.input_data_plot[x_label]
-        y_data = self.input_data_plot[y_label]
+        x_data = self.plot_samples[x_label]
+        y_data = self.plot_samples[y_label]
 
         # Filter out NaN and infinite values
         mask = (~np.isnan(x_data)) & (~np.isnan(y_data)) & np.isfinite(x_data) & np.isfinite(y_data)
@@ -656,16 +659,16 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[1]
-            feature_selection = self.input_data_plot.columns[feature_selection]
+            feature_selection = feature_selection % self.plot_samples.shape[1]
+            feature_selection = self.plot_samples.columns[feature_selection]
             feature_label = [feature_selection]
         else:
             if type(feature_selection) is list:
-                feature_label = self.input_data_plot.columns[feature_selection]
+                feature_label = self.plot_samples.columns[feature_selection]
             else:
                 feature_label = [feature_selection]
 
-        data_df = copy.copy(self.input_data_plot)
+        data_df = copy.copy(self.plot_samples)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.dropna()
         data_df.index = pd.to_datetime(data_df.index)
@@ -708,7 +711,7 @@ class DataHandler:
         plotly.graph_objects.Figure
             The Plotly heatmap figure.
         """
-        corr = self.input_data_plot.corr(method=method)
+        corr = self.plot_samples.corr(method=method)
         fig = go.Figure(
             data=go.Heatmap(
                 z=corr.values,
@@ -784,8 +787,8 @@ class DataHandler:
             The Plotly figure object containing the 2D histogram.
         """
         fig = go.Figure(data=go.Histogram2d(
-            x=self.input_data_plot[x_col],
-            y=self.input_data_plot[y_col],
+            x=self.plot_samples[x_col],
+            y=self.plot_samples[y_col],
             nbinsx=nbins,
             nbinsy=nbins,
             colorscale='Blues'
-- 
2.43.0


From 4ae16b42223a9226ffbbd136a203d59ad31606f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 086/127] fix: the ridgeline plot leaves out features without
 two positive values

---
 esat/data/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 7a12707..09247bb 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -843,6 +843,8 @@ class DataHandler:
             data = self.input_data_plot[col].dropna().values
             if log_x:
                 data = data[data > 0]
+                if len(data) < 2:
+                    continue
                 log_data = np.log10(data)
                 x_grid = np.linspace(log_data.min(), log_data.max(), nbins)
                 actual_x = 10 ** x_grid
-- 
2.43.0


From 03899d8d0ec3b46966e52135d78720ff1c0bcbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 087/127] fix: estimates of models of large datasets can be
 plotted

---
 esat/data/analysis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 64c2003..ba0f717 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -48,12 +48,12 @@ class ModelAnalysis:
 
     def aggregate_factors_for_plotting(self):
         """
-        Aggregate each factor's V_prime_k for plotting, reducing to max_samples using DataHandler's binning.
+        Calculate each factor's V_prime_k and their sum for plotting, for the samples of the model.
 
         Returns
         -------
         dict
-            Dictionary mapping factor index to aggregated V_prime_k DataFrame.
+            Dictionary mapping factor index to the V_prime_k DataFrame.
         """
         W = self.model.W
         H = self.model.H
@@ -61,10 +61,9 @@ class ModelAnalysis:
         factor_agg = {}
         for k in range(factors):
             V_prime_k = np.outer(W[:, k], H[k])
-            # Use DataHandler's aggregation for consistent plotting
-            agg_df = self.dh.aggregate_output(V_prime_k)
-            factor_agg[k] = agg_df
-        # sum of aggregated factors, into v_prime (same dimensions as V)
+            # The observed data that is plotted with the estimates is not aggregated either
+            factor_agg[k] = pd.DataFrame(V_prime_k, columns=self.dh.features)
+        # sum of factors, into v_prime (same dimensions as V)
         factor_vprime = sum([agg_df.values for agg_df in factor_agg.values()])
         factor_vprime = pd.DataFrame(factor_vprime, columns=self.dh.input_data_df.columns,
                                      index=self.dh.input_data_df.index)
@@ -1014,7 +1013,7 @@ class BatchAnalysis:
             if len(self.aggregated_output) == 0:
                 for i, r in enumerate(self.batch_sa.results):
                     if r is not None:
-                        self.aggregated_output[i] = self.data_handler.aggregate_output(r.WH)
+                        self.aggregated_output[i] = pd.DataFrame(r.WH, columns=self.data_handler.features)
             # Ensure V_primes is a list, not a dict
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
-- 
2.43.0


From 63229cb81179da56b9d63b13f66de6c35c5121b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 088/127] fix: the temporal residuals without a data handler
 are labelled with the number of their model

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index ba0f717..5555c29 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1003,7 +1003,7 @@ class BatchAnalysis:
 
         if self.data_handler is None:
             V = self.batch_sa.V
-            V_primes = [r.WH for r in self.batch_sa.results if r is not None]
+            V_primes = [r.WH if r is not None else None for r in self.batch_sa.results]
             features = [f"Feature {i + 1}" for i in range(V.shape[1])]
             x = list(range(1, V.shape[0] + 1))
             feature_label = features[feature_idx]
-- 
2.43.0


From 28588d6b755f0559e746db70ddc3f70ae0929654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 089/127] fix: the 3d factor plot can show both concentrations
 and percentages

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 5555c29..10f6848 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -639,7 +639,7 @@ class ModelAnalysis:
         # Add 3D bar graphs for "Conc. of Features"
         if plot_type.lower() in ["conc", "both"]:
             fig.add_trace(_create_mesh3d(conc_z, "Conc. of Features"))
-        else:
+        if plot_type.lower() != "conc":
             # Add 3D bar graphs for "% of Features"
             fig.add_trace(_create_mesh3d(percent_z, "% of Features"))
         if plot_type.lower() == "both":
-- 
2.43.0


From 083f4213b57b94314d09dab9dca722f888905d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 090/127] fix: contribution thresholds above 50 are refused as
 documented by the message

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 10f6848..e7c0965 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -771,7 +771,7 @@ class ModelAnalysis:
         if feature_idx > self.dh.input_data_df.shape[1] - 1 or feature_idx < 0:
             logger.info(f"Invalid feature index provided, must not be negative and be less than {self.dh.input_data_df.shape[1]-1}")
             return
-        if 50.0 > contribution_threshold < 0:
+        if contribution_threshold > 50.0 or contribution_threshold < 0:
             logger.info(f"Invalid contribution threshold provided, must be between 0.0 and 50.0")
             return
         x_label = self.dh.input_data_df.columns[feature_idx]
-- 
2.43.0


From a945d91f0a436cb5f2fb106c750be20dd49656c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 091/127] fix: the factor surface shows percentages of the sum
 of all factors

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index e7c0965..53c9e73 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -881,7 +881,7 @@ class ModelAnalysis:
             fH = self.model.H[f]
             f_matrix = np.multiply(fW, fH)
             factor_matrices.append(f_matrix)
-            percent_matrices.append(f_matrix / self.model.V)
+            percent_matrices.append(100 * f_matrix / np.matmul(self.model.W, self.model.H))
 
         _y = self.dh.input_data_df.index
         z_title = "Percentage (%)" if percentage else "Mass"
-- 
2.43.0


From ca56d0c4ca72978304cad8c262b8f8be714ded2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 092/127] fix: the first column of a data file is the index
 when none is specified

---
 esat/data/datahandler.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 09247bb..6ae08a9 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -373,16 +373,12 @@ class DataHandler:
 
         """
         ext = filepath.split(".")[-1]
+        # The first column is the index when no other is specified
+        index_col = 0 if index_col is None or index_col == "" else index_col
         if ext in ["csv", "txt"]:
-            if index_col:
-                data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
-            else:
-                data = pd.read_csv(filepath, sep=None, engine="python")
+            data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
         elif ext in ["xls", "xlsx"]:
-            if index_col:
-                data = pd.read_excel(filepath, index_col=index_col)
-            else:
-                data = pd.read_excel(filepath)
+            data = pd.read_excel(filepath, index_col=index_col)
         else:
             logger.warning(f"Unknown file type provided. Ext: {ext}, file: {filepath}")
             #TODO: Add custom exception for unknown file types.
-- 
2.43.0


From 70f36a3b8453a08b2811405eba7ac3de517f875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 093/127] fix: the commands accept the position of the index
 column of the default configuration

---
 esat/cli/esat_cli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..c95aa14 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -34,6 +34,8 @@ except importlib.metadata.PackageNotFoundError as ex:
 
 
 def get_dh(input_path, uncertainty_path, index_col):
+    # A number is the position of the index column
+    index_col = int(index_col) if index_col.isdigit() else index_col
     dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
     return dh
 
@@ -75,7 +77,7 @@ def get_batchsa(project_directory):
 
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
@@ -376,7 +378,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_data_uncertainty(feature_idx=feature_idx)
 
 
@@ -396,7 +398,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_data(x_idx=feature_idx1, y_idx=feature_idx2)
 
 
@@ -414,7 +416,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_timeseries(feature_selection=list(feature_idx))
 
 
@@ -438,7 +440,7 @@ def estimate(project_directory):
         data_df, uncertainty_df = sim.get_data()
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     factor_estimator = FactorEstimator(V=V, U=U)
     estimator_results = factor_estimator.run(
@@ -470,7 +472,7 @@ def run(project_directory):
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     sa_models = BatchSA(V=V, U=U, **config["parameters"])
     sa_models.details()
@@ -744,7 +746,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     config = get_config(project_directory=project_directory)
     e_config = get_config(project_directory=project_directory, error=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -936,7 +938,7 @@ def run_constrained(project_directory):
     config = get_config(project_directory=project_directory)
     c_config = get_config(project_directory=project_directory, constrained=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From 029f8a7a3a6e5d42e4eac7c309f1a80252083178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 094/127] fix: normalization of the initial factors can be
 turned off in a configuration file

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c1da8e0..2203438 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -112,7 +112,7 @@ class BatchSA:
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
-        self.init_norm = bool(init_norm)
+        self.init_norm = init_norm if isinstance(init_norm, bool) else str(init_norm).lower() == "true"
         self.hold_h = hold_h
         self.delay_h = delay_h
         self.use_gpu = use_gpu
-- 
2.43.0


From eabcf74124675325ce1a75b0fafad1fb75d0966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 095/127] fix: outliers can be turned off in a simulator
 configuration file

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 82e57d3..1ed2aa0 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -95,7 +95,7 @@ class Simulator:
         self.syn_columns = [f"Feature {i}" for i in range(1, self.features_n+1)]
         self.syn_factor_columns = [f"Factor {i}" for i in range(1, self.factors_n+1)]
 
-        self.outliers = outliers
+        self.outliers = outliers if isinstance(outliers, bool) else str(outliers).lower() == "true"
         self.outlier_p = float(outlier_p)
         self.outlier_mag = float(outlier_mag)
         self.noise_mean_min = float(noise_mean_min)
-- 
2.43.0


From c9f7c15abb96306346b4cd1802622e2069514d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 096/127] fix: the commands save the results of a project given
 by a relative path

---
 esat/cli/esat_cli.py | 74 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index c95aa14..ea2362f 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -142,7 +142,7 @@ def esat_cli():
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup(project_directory):
     """
     Create the configuration file for a batch source apportionment run in the provided directory.
@@ -176,7 +176,7 @@ def simulator():
 
 
 @simulator.command(name='setup')
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup_sim(project_directory):
     """
     Create the configuration file for a batch source apportionment simulated run in the provided directory.
@@ -210,7 +210,7 @@ def setup_sim(project_directory):
 
 
 @simulator.command(name="generate")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def generate_sim(project_directory):
     """
     Generate the synthetic data and uncertainty datasets as defined in the sim_config.toml. Only required for data
@@ -237,7 +237,7 @@ def generate_sim(project_directory):
 
 
 @simulator.command(name="compare")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def compare_sim(project_directory):
     """
     Compares the models generated from the synthetic data to show how similar the modelled profiles are to the known
@@ -265,7 +265,7 @@ def compare_sim(project_directory):
 
 
 @simulator.command(name="plot")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_sim(project_directory):
     """
     Plots the results of the simulator output comparison to the synthetic profiles.
@@ -298,7 +298,7 @@ def analysis_batch():
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_loss(project_directory):
     """
     Plots the loss value Q(true) over the training iterations for the batch solution.
@@ -319,7 +319,7 @@ def plot_loss(project_directory):
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_distribution(project_directory):
     """
     Plots the loss value distribution Q(true) and Q(robust) for the batch solution.
@@ -348,7 +348,7 @@ def analysis_input():
 
 
 @analysis_input.command(name="metrics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def metrics(project_directory):
     """
     Display the input metrics for the input/uncertainty data specified in the configuration file.
@@ -365,7 +365,7 @@ def metrics(project_directory):
 
 
 @analysis_input.command(name="plot-feature")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The index of the input/uncertainty data feature, "
                                                                "column in the dataset.", show_default=True)
 def plot_input_uncertainty(project_directory, feature_idx):
@@ -383,7 +383,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
 
 @analysis_input.command(name="plot-data")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--feature_idx1", type=int, default=0, help="The index of the first (x-axis) input data feature, "
                                                                 "column in the dataset.", show_default=True)
 @click.option('-y', "--feature_idx2", type=int, default=1, help="The index of the second (y-axis) input data feature, "
@@ -403,7 +403,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 
 @analysis_input.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
                                                                "columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
@@ -421,7 +421,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def estimate(project_directory):
     """
     Run a factor estimation using the provided configuration file.
@@ -452,7 +452,7 @@ def estimate(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run(project_directory):
     """
     Run a batch source apportionment run using the provided configuration file.
@@ -494,7 +494,7 @@ def analysis_solution():
 
 
 @analysis_solution.command(name="plot-residuals")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -514,7 +514,7 @@ def solution_residual_histogram(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="statistics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -534,7 +534,7 @@ def solution_statistics(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-estimated")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -554,7 +554,7 @@ def solution_estimated_observed(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -574,7 +574,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -594,7 +594,7 @@ def solution_factor_profile(project_directory, selected_model, factor_idx):
 
 
 @analysis_solution.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -613,7 +613,7 @@ def solution_factor_fingerprints(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -636,7 +636,7 @@ def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2
 
 
 @analysis_solution.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -656,7 +656,7 @@ def solution_factor_contributions(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-composition")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -675,7 +675,7 @@ def solution_factor_composition(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-surface")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -704,7 +704,7 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_error(project_directory):
     """
     Create an error estimation configuration file for the specified project.
@@ -723,7 +723,7 @@ def setup_error(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, default=False,
               help="Run the displacement (DISP) error estimation method.", show_default=True)
 @click.option("--bs", is_flag=True, prompt=False, default=False, show_default=True,
@@ -847,7 +847,7 @@ def analysis_error():
 
 
 @analysis_error.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -876,7 +876,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
 
 
 @analysis_error.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -906,7 +906,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_constrained(project_directory):
     """
     Create a configuration file for executing a constrained model run on a specified project.
@@ -925,7 +925,7 @@ def setup_constrained(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run_constrained(project_directory):
     """
     Run a constrained model with the specified configuration file.
@@ -995,7 +995,7 @@ def analysis_constrained():
 
 
 @analysis_constrained.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_results(project_directory):
     """
     Display the results of a constrained model run.
@@ -1011,7 +1011,7 @@ def constrained_results(project_directory):
 
 
 @analysis_constrained.command(name="plot-q")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-q', "--qtype", prompt_required=False, default='Aux', show_default=True,
               help="Plot the loss value for qtype: True, Robust, Aux")
 def constrained_plot_q(project_directory, qtype):
@@ -1030,7 +1030,7 @@ def constrained_plot_q(project_directory, qtype):
 
 
 @analysis_constrained.command(name="eval-constraints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_constraints(project_directory):
     """
     Display the evaluation table of the constrained model results, for each constraint.
@@ -1045,7 +1045,7 @@ def constrained_evaluate_constraints(project_directory):
 
 
 @analysis_constrained.command(name="eval-expressions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_expressions(project_directory):
     """
     Display the evaluation table of the constrained model results, for each expression.
@@ -1060,7 +1060,7 @@ def constrained_evaluate_expressions(project_directory):
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
@@ -1076,7 +1076,7 @@ def constrained_profile_contributions(project_directory, factor_idx):
 
 
 @analysis_constrained.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_factor_fingerprints(project_directory):
     """
     Display the constrained solution factor fingerprints.
@@ -1091,7 +1091,7 @@ def constrained_factor_fingerprints(project_directory):
 
 
 @analysis_constrained.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
@@ -1112,7 +1112,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
-- 
2.43.0


From da3bc20c50b36bcd3017b58801839e22a1cbd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 097/127] fix: the command for the time series of a feature
 accepts a feature

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index ea2362f..86b388c 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -417,7 +417,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
-    dh.plot_feature_timeseries(feature_selection=list(feature_idx))
+    dh.plot_feature_timeseries(feature_selection=[feature_idx])
 
 
 @esat_cli.command()
-- 
2.43.0


From a6d5120a8ee50ce3008de9b09eb3ae24a1096b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 098/127] fix: the commands for the results of one error
 estimation method accept one method

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 86b388c..359d29a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -863,7 +863,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -893,7 +893,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From 83a37b43ea8575bf2c7a82f4b60d1d72352b0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 099/127] fix: error estimation from the command line finds the
 constrained model

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 359d29a..3e84c82 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -755,7 +755,7 @@ def run_error(project_directory, disp, bs, bsdisp):
 
     if e_config["project"]["constrained_config"] != "":
         constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
+                                       f"constrained_model-{config['project']['name']}.pkl")
         c_solution = ConstrainedModel.load(file_path=constrained_pkl)
         logger.info("Using existing constrained model.")
         selected_i = -1
-- 
2.43.0


From 1519ee7cc2d8ac9a8a668ccbe359172024bc290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 100/127] fix: BS-DISP can be run from the command line without
 a bootstrap

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 3e84c82..2b306ee 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -815,7 +815,7 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
+        elif bs:
             _bs = bs
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
-- 
2.43.0


From 82b0d012c35935de1809487817c13c26423c8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 101/127] fix: BS-DISP from the command line uses its own
 features setting

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 2b306ee..bbcffd8 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -804,7 +804,7 @@ def run_error(project_directory, disp, bs, bsdisp):
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
         logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
-- 
2.43.0


From 261e460e1bf76701fb78a0054191fe7a6153e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 102/127] fix: the constrained profile plot is available from
 the command line

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index bbcffd8..0ab9bb7 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1059,7 +1059,7 @@ def constrained_evaluate_expressions(project_directory):
     c_model.evaluate_expressions()
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-profile")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
@@ -1114,7 +1114,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From 446ebd6520f5e2eb267b7ed599c3b80079a154dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 103/127] fix: the commands pass every data setting of the
 configuration on

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 0ab9bb7..4a4c2ba 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -33,10 +33,10 @@ except importlib.metadata.PackageNotFoundError as ex:
     VERSION = "NA"
 
 
-def get_dh(input_path, uncertainty_path, index_col):
+def get_dh(input_path, uncertainty_path, index_col="", **options):
     # A number is the position of the index column
     index_col = int(index_col) if index_col.isdigit() else index_col
-    dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
+    dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col, **options)
     return dh
 
 
-- 
2.43.0


From bcc5a133f32114466d555af493cd9c4acaae1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 104/127] fix: the default factors of the plot commands are
 valid factors

---
 esat/cli/esat_cli.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 4a4c2ba..bdc94bd 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -578,7 +578,8 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile (1 -> k).",
+              show_default=True)
 def solution_factor_profile(project_directory, selected_model, factor_idx):
     """
     Plot the factor profile for a specified factor index (factor_idx) and solution model (selected_model).
@@ -617,9 +618,9 @@ def solution_factor_fingerprints(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-x', "--factor_idx1", default=0, type=int, help="The index of the x-axis factor profile.",
+@click.option('-x', "--factor_idx1", default=1, type=int, help="The index of the x-axis factor profile (1 -> k).",
               show_default=True)
-@click.option('-y', "--factor_idx2", default=1, type=int, help="The index of the y-axis factor profile.",
+@click.option('-y', "--factor_idx2", default=2, type=int, help="The index of the y-axis factor profile (1 -> k).",
               show_default=True)
 def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2):
     """
@@ -679,7 +680,8 @@ def solution_factor_composition(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile (1 -> k).",
+              show_default=True)
 @click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
                                                                    "include. Default: -1, includes all features which "
                                                                    "contribution to the factor_idx. Multiple indices"
@@ -883,7 +885,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
               help="Summarize the bootstrap (BS) error estimation results.")
 @click.option("--bsdisp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the bootstrap-displacement (BSDISP) error estimation results.")
-@click.option("--factor_idx", default=0, type=int, help="The factor index to display results.")
+@click.option("--factor_idx", default=1, type=int, help="The factor index to display results (1 -> k).")
 def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     """
     Show the results of an error estimation method. One method must be selected.
@@ -1061,7 +1063,7 @@ def constrained_evaluate_expressions(project_directory):
 
 @analysis_constrained.command(name="plot-profile")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
+@click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot (1 -> k).")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
     Display a specified factor profile and contributions plot for the constrained model solution.
@@ -1092,8 +1094,10 @@ def constrained_factor_fingerprints(project_directory):
 
 @analysis_constrained.command(name="plot-gspace")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
-@click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
+@click.option('-x', "--factor_idx1", default=1, type=int, show_default=True,
+              help="The factor index for the x-axis (1 -> k).")
+@click.option('-y', "--factor_idx2", default=2, type=int, show_default=True,
+              help="The factor index for the y-axis (1 -> k).")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the base solution values.")
 @click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
-- 
2.43.0


From 0cda2aeb7aea561339e7fd5e074bfe28bcc19ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 105/127] fix: the base solution and the changes can be shown
 or hidden in the constrained g-space plot

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index bdc94bd..87d80ed 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1098,9 +1098,9 @@ def constrained_factor_fingerprints(project_directory):
               help="The factor index for the x-axis (1 -> k).")
 @click.option('-y', "--factor_idx2", default=2, type=int, show_default=True,
               help="The factor index for the y-axis (1 -> k).")
-@click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_base/--hide_base", default=True, show_default=True,
               help="Show the base solution values.")
-@click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_delta/--hide_delta", default=True, show_default=True,
               help="Show the change between the constrained solution values and  the base solution values")
 def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base, show_delta):
     """
-- 
2.43.0


From 24592cc95ce13b0730deed5aa35493e3df7f510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 106/127] fix: the surface plot command accepts features

---
 esat/cli/esat_cli.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 87d80ed..e4baf2a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -680,11 +680,12 @@ def solution_factor_composition(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile (1 -> k).",
-              show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile (1 -> k), -1 to show "
+                                                               "features for all factors.", show_default=True)
 @click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
                                                                    "include. Default: -1, includes all features which "
-                                                                   "contribution to the factor_idx. Multiple indices"
+                                                                   "contribution to the factor_idx. Used when "
+                                                                   "factor_idx is -1. Multiple indices"
                                                                    " can be provided.")
 def solution_factor_surface(project_directory, selected_model, factor_idx, feature_idx):
     """
@@ -696,13 +697,14 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
     project_directory : The project directory containing .toml configuration files.
 
     """
-    feature_idx = feature_idx if len(feature_idx) > 0 else -1
     ma, selected_i = get_model_analysis(project_directory=project_directory, selected_model=selected_model)
     factor_idx = factor_idx if factor_idx != -1 else None
-    feature_idx = feature_idx if feature_idx != -1 else None
+    # The features are shown for all factors when no factor is selected, and start at 1 in the plot
+    feature_list = [f + 1 for f in feature_idx if f != -1] if factor_idx is None else []
     logger.info(f"ESAT Solution Factor Surface for model: {selected_i}, factor index: {factor_idx}, "
                 f"feature index: {feature_idx}")
-    ma.plot_factor_surface(feature_idx=feature_idx, factor_idx=factor_idx)
+    for feature_i in feature_list or [None]:
+        ma.plot_factor_surface(feature_idx=feature_i, factor_idx=factor_idx)
 
 
 @esat_cli.command()
-- 
2.43.0


From 96e9c50ec8e157c86f5d10f431948d9843cc0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 107/127] fix: generating synthetic data uses the current
 simulator configuration

---
 esat/cli/esat_cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index e4baf2a..4830826 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -40,8 +40,8 @@ def get_dh(input_path, uncertainty_path, index_col="", **options):
     return dh
 
 
-def get_sim(sim_path, sim_parameters, sim_contributions):
-    if "esat_simulator.pkl" in os.listdir(sim_path):
+def get_sim(sim_path, sim_parameters, sim_contributions, generate=False):
+    if "esat_simulator.pkl" in os.listdir(sim_path) and not generate:
         sim = Simulator.load(os.path.join(sim_path, "esat_simulator.pkl"))
     else:
         sim = Simulator(**sim_parameters)
@@ -231,7 +231,8 @@ def generate_sim(project_directory):
     logger.info("Generating synthetic data")
     sim = get_sim(sim_path=project_directory,
                   sim_parameters=config['parameters'],
-                  sim_contributions=config["contributions"]
+                  sim_contributions=config["contributions"],
+                  generate=True
                   )
     logger.info("ESAT Simulator setup complete")
 
-- 
2.43.0


From 28c09136d4c384b13e6c35b4809ac5f414224d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 108/127] fix: the commands train on the synthetic data that
 was generated and saved

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 4830826..f3cbaf0 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -438,7 +438,7 @@ def estimate(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
         dh = get_dh(**config["data"])
@@ -469,7 +469,7 @@ def run(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-- 
2.43.0


From 5aeeb658eb28112b9aac70d28f5e95f3526e638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 109/127] fix: the commands find the synthetic data of a
 simulated project

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index f3cbaf0..1a9f5e0 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -201,8 +201,8 @@ def setup_sim(project_directory):
     logger.info(f"New simulator configuration file created. File path: {new_sim_config_file}")
     new_config = run_config
     new_config['project']['directory'] = project_directory
-    new_config['data']['input_path'] = new_sim_config['data']['input_path']
-    new_config['data']['uncertainty_path'] = new_sim_config['data']['uncertainty_path']
+    new_config['data']['input_path'] = os.path.join(project_directory, new_sim_config['data']['input_path'])
+    new_config['data']['uncertainty_path'] = os.path.join(project_directory, new_sim_config['data']['uncertainty_path'])
     new_config_file = os.path.join(project_directory, "run_config.toml")
     with open(new_config_file, 'w') as configfile:
         new_config.write(configfile)
-- 
2.43.0


From 837735fa43159bea1de84f12c16f9498883a4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 110/127] fix: error estimation and constrained models use the
 batch of the configured output directory

---
 esat/cli/esat_cli.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 1a9f5e0..5b95eed 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -752,8 +752,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     e_config = get_config(project_directory=project_directory, error=True)
 
     dh = get_dh(**config["data"])
-    batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
-    sa_models = BatchSA.load(file_path=batch_pkl)
+    sa_models = get_batchsa(project_directory=project_directory)
     error_dir = os.path.join(project_directory, "error")
     if not os.path.exists(error_dir):
         os.mkdir(error_dir)
@@ -945,8 +944,7 @@ def run_constrained(project_directory):
 
     dh = get_dh(**config["data"])
 
-    batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
-    sa_models = BatchSA.load(file_path=batch_pkl)
+    sa_models = get_batchsa(project_directory=project_directory)
     selected_i = c_config["parameters"]["selected_model"]
     selected_i = sa_models.best_model if int(selected_i) == -1 else int(selected_i)
     selected_model = sa_models.results[selected_i]
-- 
2.43.0


From 181f5f01ea7ae24bfdb466eee6aa00d016b1e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 111/127] fix: holding of the profiles and the choice of the
 best model can be set in a configuration file

---
 esat/model/batch_sa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 2203438..37d8f37 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -107,14 +107,14 @@ class BatchSA:
         self.max_iter = int(max_iter)
         self.converge_delta = float(converge_delta)
         self.converge_n = int(converge_n)
-        self.best_robust = best_robust
+        self.best_robust = best_robust if isinstance(best_robust, bool) else str(best_robust).lower() == "true"
 
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
         self.init_norm = init_norm if isinstance(init_norm, bool) else str(init_norm).lower() == "true"
-        self.hold_h = hold_h
-        self.delay_h = delay_h
+        self.hold_h = hold_h if isinstance(hold_h, bool) else str(hold_h).lower() == "true"
+        self.delay_h = int(delay_h)
         self.use_gpu = use_gpu
 
         self.progress_callback = progress_callback if callable(progress_callback) else None
-- 
2.43.0


From 9f39517682c9d6f0b0b026a12f408ad6e34658e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 112/127] fix: the analysis commands have the data that the
 models were trained on

---
 esat/cli/esat_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 5b95eed..6fdc66a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -37,6 +37,8 @@ def get_dh(input_path, uncertainty_path, index_col="", **options):
     # A number is the position of the index column
     index_col = int(index_col) if index_col.isdigit() else index_col
     dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col, **options)
+    # The analysis of models uses the processed data
+    dh.get_data()
     return dh
 
 
-- 
2.43.0


From d7b0fb026e6afcec07040f7a095133c7afa91f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 113/127] fix: the factors of comparisons with any number of
 factors can be plotted

---
 esat/data/test_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 6c799d4..0b682fa 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -128,8 +128,7 @@ class CompareAnalyzer:
 
     def plot_factors(self):
 
-        profile_subplot = make_subplots(rows=6, cols=1, specs=[[{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}],
-                                                               [{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}]])
+        profile_subplot = make_subplots(rows=self.factor_n, cols=1, specs=[[{"type": "bar"}]] * self.factor_n)
 
         pmf_norm = self._standardize(data=self.pmf_profile_df, include_features=False)
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=False)
-- 
2.43.0


From 365c2a4a4d5f6ba73d694f710b09c208e82d9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 114/127] fix: comparisons accept a list of features

---
 esat/data/test_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 0b682fa..034565e 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -34,7 +34,7 @@ class CompareAnalyzer:
         self.ls_contributions_df = ls_contributions_df
         self.ws_contributions_df = ws_contributions_df
 
-        self.features = features
+        self.features = np.array(features)
         self.factor_n = pmf_profile_df.shape[1] - 1
         self.factor_columns = [f"Factor {i}" for i in range(1, self.factor_n + 1)]
         self.datetimestamps = datetimestamps
-- 
2.43.0


From b782f1cd9bb2328f3113a2c9b1f375c840a58fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 115/127] Revert "fix: comparisons accept a list of features"

This reverts commit 365c2a4a4d5f6ba73d694f710b09c208e82d9f5d.
---
 esat/data/test_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 034565e..0b682fa 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -34,7 +34,7 @@ class CompareAnalyzer:
         self.ls_contributions_df = ls_contributions_df
         self.ws_contributions_df = ws_contributions_df
 
-        self.features = np.array(features)
+        self.features = features
         self.factor_n = pmf_profile_df.shape[1] - 1
         self.factor_columns = [f"Factor {i}" for i in range(1, self.factor_n + 1)]
         self.datetimestamps = datetimestamps
-- 
2.43.0


From 4f7d838c718241a5c85fe1aa9b3e74b4420a5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 116/127] Revert "fix: the factors of comparisons with any
 number of factors can be plotted"

This reverts commit d7b0fb026e6afcec07040f7a095133c7afa91f28.
---
 esat/data/test_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 0b682fa..6c799d4 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -128,7 +128,8 @@ class CompareAnalyzer:
 
     def plot_factors(self):
 
-        profile_subplot = make_subplots(rows=self.factor_n, cols=1, specs=[[{"type": "bar"}]] * self.factor_n)
+        profile_subplot = make_subplots(rows=6, cols=1, specs=[[{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}],
+                                                               [{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}]])
 
         pmf_norm = self._standardize(data=self.pmf_profile_df, include_features=False)
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=False)
-- 
2.43.0


From 9b33809104fde731aa1ef3b67be8cac07bf1d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 117/127] fix: per-factor loss of reconstructions that are not
 positive

---
 esat/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/metrics.py b/esat/metrics.py
index 9b78183..fc29776 100644
--- a/esat/metrics.py
+++ b/esat/metrics.py
@@ -40,7 +40,6 @@ def qr_loss(V, U, W, H, alpha=4.0):
 
 def q_factor(V, U, W, H):
     wh = np.matmul(W, H)
-    wh[wh <= 0.0] = 1e-12
     residuals = np.subtract(V, wh)
     u_residuals = np.divide(residuals, U)
     u2_residuals = u_residuals**2
@@ -49,7 +48,7 @@ def q_factor(V, U, W, H):
         w_i = W[:, f_i]
         h_i = H[f_i]
         v_i = np.matmul(w_i.reshape(len(w_i), 1), [h_i])
-        v_ip = v_i / wh
+        v_ip = np.divide(v_i, wh, out=np.zeros(wh.shape), where=wh != 0.0)
         q_i = np.round(np.sum(u2_residuals * v_ip), 4)
         factor_q.append(q_i)
     return factor_q
-- 
2.43.0


From e4ea3d121cb40a77b00d3e92e1b0373c23fa76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 118/127] fix: uncertainty plot opens at the specified feature

---
 esat/data/datahandler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 6ae08a9..4c90091 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -503,6 +503,16 @@ class DataHandler:
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
         Create a plot of the data vs the uncertainty for a specified feature, with a dropdown menu for feature selection.
+
+        Parameters
+        ----------
+        show : bool
+            Whether to display the plot immediately.
+        include_menu : bool
+            Include a dropdown menu with all features. Without the menu only the specified feature is plotted.
+        feature_idx : int
+            The index of the feature to plot, with the menu the feature that is selected at first. Default is the
+            first feature with the menu and all features without it.
         """
         if self.input_data_plot is None or self.uncertainty_data_plot is None:
             logger.error("Input or uncertainty data is not loaded.")
@@ -512,6 +522,7 @@ class DataHandler:
             features = [self.input_data_plot.columns[feature_idx]]
         else:
             features = self.input_data_plot.columns
+        selected = 0 if feature_idx is None or not include_menu else range(len(features))[feature_idx]
         du_plot = go.Figure()
         buttons = []
 
@@ -526,7 +537,7 @@ class DataHandler:
                     y=feature_uncertainty,
                     mode='markers',
                     name=feature_label,
-                    visible=(feature_idx == 0) or not include_menu,
+                    visible=(feature_idx == selected) or not include_menu,
                 )
             )
 
@@ -549,11 +560,12 @@ class DataHandler:
                         type="dropdown",
                         direction="down",
                         buttons=buttons,
+                        active=selected,
                         showactive=True
                     )
                 ])
         du_plot.update_layout(
-            title=f"Concentration/Uncertainty Scatter Plot - {features[0]}",
+            title=f"Concentration/Uncertainty Scatter Plot - {features[selected]}",
             width=800,
             height=600,
             xaxis_title="Concentration",
-- 
2.43.0


From 4d38c2b4e43e1d8a145ad54d80b7e461ee22e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 119/127] fix: aggregate_output keeps every bin when the
 features have different numbers of bins

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4c90091..65a0d9b 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -490,7 +490,7 @@ class DataHandler:
             return pd.DataFrame(output_array, columns=self.features)
         # Convert array to DataFrame with correct columns
         output_df = pd.DataFrame(output_array, columns=self.features)
-        agg_output = pd.DataFrame()
+        agg_output = {}
         for col in output_df.columns:
             if col in self._agg_bins:
                 binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
@@ -498,7 +498,7 @@ class DataHandler:
                 agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             else:
                 agg_output[col] = output_df[col]
-        return agg_output
+        return pd.DataFrame(agg_output)
 
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
-- 
2.43.0


From 54d787faf2e168b4b550247f67fca853e928929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 120/127] fix: the time limit of a batch counts fractions of a
 second and whole days

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 37d8f37..6cfb973 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -312,7 +312,7 @@ class BatchSA:
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-                        if min_limit and t_delta.seconds / 60 > min_limit:
+                        if min_limit and t_delta.total_seconds() / 60 > min_limit:
                             logger.warning(f"SA model training time exceeded specified runtime limit.")
                             return False, f"Error: Model train time: {t_delta} exceeded runtime limit: {min_limit} min(s)"
                         if run == -1:
-- 
2.43.0


From 4aae3faf51a8f0fec1a3ef222f03ec9de700a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 121/127] fix: estimated figures show the present matrices of
 the model, not those of the first figure

---
 esat/data/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 53c9e73..9936655 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -298,8 +298,7 @@ class ModelAnalysis:
         else:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
@@ -364,8 +363,7 @@ class ModelAnalysis:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
 
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.input_data_df[feature].values
         predicted_data = self.V_prime_plot.iloc[:, feature_idx].values
-- 
2.43.0


From 8b4edd5f46f79cd42810acfb74983dc0de3b457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 122/127] fix: temporal residuals show the present models of
 the batch, not those of the first figure

---
 esat/data/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 9936655..2515c4f 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1008,10 +1008,10 @@ class BatchAnalysis:
             col_idx = feature_idx
         else:
             V = self.data_handler.input_data_df.values
-            if len(self.aggregated_output) == 0:
-                for i, r in enumerate(self.batch_sa.results):
-                    if r is not None:
-                        self.aggregated_output[i] = pd.DataFrame(r.WH, columns=self.data_handler.features)
+            self.aggregated_output = {}
+            for i, r in enumerate(self.batch_sa.results):
+                if r is not None:
+                    self.aggregated_output[i] = pd.DataFrame(r.WH, columns=self.data_handler.features)
             # Ensure V_primes is a list, not a dict
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
-- 
2.43.0


From 50f8352c808b2c5f1b78ac514a0a69d759d59aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 123/127] fix: the metrics and plots of a merged dataset are
 those of the merged data

---
 esat/data/datahandler.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 65a0d9b..ea7b438 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -260,6 +260,12 @@ class DataHandler:
         self.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
         self.features = [col for col in self.input_data.columns if col != 'source_label']
 
+        # The metrics and the plotted data are those of the merged data, the categories are kept
+        categories = self.metrics["Category"]
+        self._load_data(existing_data=True)
+        self.metrics["Category"] = categories
+        self._aggregate_data()
+
         logger.info("DataHandlers merged successfully.")
         return True
 
@@ -402,11 +408,11 @@ class DataHandler:
         self.input_data = self.input_data[~nan_rows]
         self.uncertainty_data = self.uncertainty_data[~nan_rows]
 
-        self.min_values = self.input_data.min(axis=0)
-        self.max_values = self.input_data.max(axis=0)
+        c_df = self.input_data.drop(columns="source_label", errors="ignore")
+        u_df = self.uncertainty_data.drop(columns="source_label", errors="ignore")
 
-        c_df = self.input_data.copy()
-        u_df = self.uncertainty_data.copy()
+        self.min_values = c_df.min(axis=0)
+        self.max_values = c_df.max(axis=0)
 
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
@@ -457,21 +463,24 @@ class DataHandler:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
             return
-        n_samples = len(self.input_data)
+        input_data = self.input_data.drop(columns="source_label", errors="ignore")
+        self.plot_samples = input_data
+        uncertainty_data = self.uncertainty_data.drop(columns="source_label", errors="ignore")
+        n_samples = len(input_data)
         if n_samples <= self.max_plotting_n:
-            self.input_data_plot = self.input_data
-            self.uncertainty_data_plot = self.uncertainty_data
+            self.input_data_plot = input_data
+            self.uncertainty_data_plot = uncertainty_data
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
         agg_input = {}
         agg_uncertainty = {}
-        for col in self.input_data.columns:
+        for col in input_data.columns:
             # Repeated values give equal quantiles, which delimit a single bin
-            quantiles = self.input_data[col].quantile(bins).drop_duplicates()
+            quantiles = input_data[col].quantile(bins).drop_duplicates()
             labels = range(len(quantiles) - 1)
-            binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
-            agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
+            binned = pd.cut(input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
+            agg_input[col] = input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
+            agg_uncertainty[col] = uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-- 
2.43.0


From 50478f1baa1c6ec6ac3cb2d700a234f9f6a0d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 124/127] fix: a batch trained in parallel accepts any progress
 callback

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 6cfb973..6aad694 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -248,7 +248,7 @@ class BatchSA:
                         input_parameters.append((
                             _sa, i, progress_queue, log_queue,
                             self.max_iter, self.converge_delta, self.converge_n,
-                            self.update_step, self.hold_h, self.delay_h, self.progress_callback
+                            self.update_step, self.hold_h, self.delay_h, None  # progress is reported through the queue
                         ))
                     logger.info("Input parameters for multiprocessing prepared.")
 
-- 
2.43.0


From b7cd375c0d20ace5ef07e2582423ecef1a2fb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 125/127] fix: a batch is saved without a progress callback
 that cannot be pickled

---
 esat/model/batch_sa.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 6aad694..a801dff 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -398,6 +398,13 @@ class BatchSA:
         )
         return model_i, sa
 
+    def __getstate__(self):
+        # A progress callback of the running application cannot always be saved with the models
+        state = self.__dict__.copy()
+        if not is_picklable(state.get("progress_callback")):
+            state["progress_callback"] = None
+        return state
+
     def save(self, batch_name: str,
              output_directory: str,
              pickle_model: bool = False,
-- 
2.43.0


From d8434a80d3fbfad0abc5af44ff0d754379a23b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:35 +0000
Subject: [PATCH 126/127] fix: parallel runs start at least one worker on
 machines with one processor

---
 esat/error/bootstrap.py   | 2 +-
 esat/error/bs_disp.py     | 6 ++++--
 esat/estimator.py         | 2 +-
 eval/factor_comparison.py | 2 +-
 eval/perturbation.py      | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index e273984..e8c15c0 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -92,7 +92,7 @@ class Bootstrap:
         self.base_seed = self.sa.seed
         self.bs_seed = seed if seed is not None else self.base_seed
         self.parallel = parallel if isinstance(parallel, bool) else str(parallel).lower() == "true"
-        self.cpus = cpus if cpus > 0 else mp.cpu_count() - 1
+        self.cpus = cpus if cpus > 0 else max(mp.cpu_count() - 1, 1)
 
         self.bs_results = {}
         self.rng = np.random.default_rng(seed=self.bs_seed)
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index ccb8ef4..5fde34f 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -91,7 +91,9 @@ class BSDISP:
         self.threshold_dQ = threshold_dQ
         self.features = features
         self.seed = seed if bootstrap is None else bootstrap.bs_seed
-        self.cores = min(cores, int(os.cpu_count() * 0.75)) if cores > 0 else max(int(os.cpu_count() * 0.75), 1)
+        self.cores = max(int(os.cpu_count() * 0.75), 1)
+        if cores > 0:
+            self.cores = min(cores, self.cores)
 
         self.disp_results = {}
         self.compiled_results = None
@@ -162,7 +164,7 @@ class BSDISP:
         sys.stdout.flush()
 
         if parallel:
-            cpus = int(mp.cpu_count() * 0.75)
+            cpus = max(int(mp.cpu_count() * 0.75), 1)
             p_args = []
             for i, bs_key in enumerate(bs_keys):
                 i_model = self.bootstrap.bs_results[bs_key]["model"]
diff --git a/esat/estimator.py b/esat/estimator.py
index bb0068c..4f08474 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -132,7 +132,7 @@ class FactorEstimator:
             mask = self._get_mask(threshold=self.test_percent)
             pool_parameters.append((self.V, self.U, mask, seed_i, factor_i, max_iterations, converge_delta, converge_n))
 
-        pool = mp.Pool(os.cpu_count()-1)
+        pool = mp.Pool(max(os.cpu_count() - 1, 1))
         results = []
         for p_parameter in pool_parameters:
             r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index d3dc0d5..02b4f59 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -294,7 +294,7 @@ class FactorCompare:
         best_wh_r = None
         best_wh_r_avg = None
 
-        pool = mp.Pool(processes=os.cpu_count()-1)
+        pool = mp.Pool(processes=max(os.cpu_count() - 1, 1))
 
         if len(self.base_factors) >= len(self.sa_factors):
             prime_list = self.base_factors
diff --git a/eval/perturbation.py b/eval/perturbation.py
index 18d7421..2ba8977 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -118,7 +118,7 @@ class Perturbation:
             sa_model.initialize()
             sa_model.train(max_iter=self.max_iterations, converge_delta=self.converge_delta, converge_n=self.converge_n)
             self.base_model = sa_model
-        cores = int(mp.cpu_count() * 0.75)
+        cores = max(int(mp.cpu_count() * 0.75), 1)
         pool = mp.Pool(processes=cores)
         parallel_args = [(i, self.rng.integers(0, 1e5)) for i in range(self.models)]
 
-- 
2.43.0


From e9c3ca8c069c13cc4cb73dcf8372882a75cdbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 127/127] fix: text files are written in UTF-8 whatever the
 encoding of the system

---
 esat/error/bs_disp.py      | 2 +-
 esat/error/displacement.py | 4 ++--
 esat/model/sa.py           | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 5fde34f..51ba18b 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -449,7 +449,7 @@ class BSDISP:
                     disp.save(disp_name=bsdisp_name + "-" + str(k), output_directory=str(output_directory),
                               pickle_result=False)
                 compiled_file = os.path.join(output_directory, f"{bsdisp_name}-results.csv")
-                with open(compiled_file, 'w') as cfile:
+                with open(compiled_file, "w", encoding="utf-8") as cfile:
                     self.compiled_results.to_csv(cfile, index=False, lineterminator='\n')
             return file_path
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index e17b66b..fb4c0af 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -672,7 +672,7 @@ class Displacement:
                     json.dump(self.decrease_results, decfile, default=np_encoder)
                     logger.info(f"DISP SA model decreasing results saved to file: {decrease_file}")
                 swap_file = os.path.join(output_directory, f"{disp_name}-swaptable.csv")
-                with open(swap_file, 'w') as stfile:
+                with open(swap_file, "w", encoding="utf-8") as stfile:
                     table_labels = ["dQ Max"]
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
@@ -683,7 +683,7 @@ class Displacement:
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
                     logger.info(f"DISP SA swap table saved to file: {swap_file}")
                 compiled_file = os.path.join(output_directory, f"{disp_name}-results.csv")
-                with open(compiled_file, 'w') as cfile:
+                with open(compiled_file, "w", encoding="utf-8") as cfile:
                     self.compiled_results.to_csv(cfile, index=False, lineterminator='\n')
                     logger.info(f"DISP SA compiled results saved to file: {compiled_file}")
             return file_path
diff --git a/esat/model/sa.py b/esat/model/sa.py
index ab63c37..5a28628 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -533,22 +533,22 @@ class SA:
                     json.dump(self.metadata, mfile, default=np_encoder)
                     logger.info(f"SA model metadata saved to file: {meta_file}")
                 profile_file = os.path.join(output_directory, f"{model_name}-profile.csv")
-                with open(profile_file, "w") as pfile:
+                with open(profile_file, "w", encoding="utf-8") as pfile:
                     profile_comment = f"Factor Profile (H) Matrix\nMetadata File: {meta_file}\n\n"
                     np.savetxt(pfile, self.H, delimiter=',', header=header, comments=profile_comment)
                     logger.info(f"SA model factor profile saved to file: {profile_file}")
                 contribution_file = os.path.join(output_directory, f"{model_name}-contribution.csv")
-                with open(contribution_file, "w") as cfile:
+                with open(contribution_file, "w", encoding="utf-8") as cfile:
                     contribution_comment = f"Factor Contribution (W) Matrix\nMetadata File: {meta_file}\n\n"
                     np.savetxt(cfile, self.W, delimiter=',', header=factor_header, comments=contribution_comment)
                     logger.info(f"SA model factor contribution saved to file: {contribution_file}")
                 v_prime_file = os.path.join(output_directory, f"{model_name}-vprime.csv")
-                with open(v_prime_file, 'w') as vpfile:
+                with open(v_prime_file, 'w', encoding="utf-8") as vpfile:
                     vp_comment = f"Estimated Data (WH=V') Matrix\nMetadata File: {meta_file}\n\n"
                     np.savetxt(vpfile, self.WH, delimiter=',', header=header, comments=vp_comment)
                     logger.info(f"SA model ' saved to file: {v_prime_file}")
                 residual_file = os.path.join(output_directory, f"{model_name}-residuals.csv")
-                with open(residual_file, 'w') as rfile:
+                with open(residual_file, 'w', encoding="utf-8") as rfile:
                     residual_comment = f"Residual Matrix (V-V')\nMetadata File: {meta_file}\n\n"
                     residuals = self.V - self.WH
                     np.savetxt(rfile, residuals, delimiter=',', header=header, comments=residual_comment)
-- 
2.43.0

