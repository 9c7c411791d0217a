From 044ab42b671fee6ec1522a98b2d8fcd0db62954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 01/42] fix: ALE local effects divide by the width of the
 instance's own bin

---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f531864 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -59,7 +59,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From 6dfbf3f148746f4b1688d7fe53dec271fb911219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 02/42] fix: bin assignment and accumulation do not depend on
 absolute constants (1e-8, 1e8)

---
 effector/utils.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index f531864..5e5ac0b 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -49,9 +49,8 @@ def compute_local_effects(
     assert limits[0] <= np.min(data[:, feature])
     assert limits[-1] >= np.max(data[:, feature])
 
-    # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
-    ind = np.digitize(data[:, feature], limits)
+    # for each point, find the bin-index it belongs to (the last bin includes its right limit)
+    ind = np.minimum(np.digitize(data[:, feature], limits), len(limits) - 1)
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -140,9 +139,7 @@ def compute_bin_effect(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
-    ind = np.digitize(xs, limits_enh)
+    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)
     # assert np.alltrue(ind > 0)
 
     # bin effect is the mean of all points that lie in the bin
@@ -212,10 +209,7 @@ def compute_bin_variance(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    eps = 1e-8
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
-    ind = np.digitize(xs, limits_enh)
+    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)
     # assert np.alltrue(ind > 0)
 
     # variance of the effect in each bin
@@ -352,7 +346,7 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits[:-1], [np.inf]])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-- 
2.43.0


From a9bcfc8f77d9a5f23c8c7e65ec9831371db4eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 03/42] fix: integer and single-precision data are not
 truncated when features are substituted

---
 effector/global_effect.py       | 2 +-
 effector/global_effect_ale.py   | 2 +-
 effector/regional_effect.py     | 2 +-
 effector/regional_effect_ale.py | 1 +
 effector/utils.py               | 2 ++
 5 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..cda0b9b 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -60,7 +60,7 @@ class GlobalEffectBase(ABC):
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        data = data[self.indices, :]
+        data = data[self.indices, :].astype(float)
 
         self.data: np.ndarray = data
         self.dim = self.data.shape[1]
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..44b0c9d 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -462,7 +462,7 @@ class RHALE(ALEBase):
 
         # select nof_instances from the data
         nof_instances, indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        data = data[indices, :]
+        data = data[indices, :].astype(float)
         data_effect = data_effect[indices, :] if data_effect is not None else None
         self.data_effect = data_effect
 
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..7d876d9 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -42,7 +42,7 @@ class RegionalEffectBase:
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        self.data = data[self.indices, :]
+        self.data = data[self.indices, :].astype(float)
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..7a30234 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -40,6 +40,7 @@ class RegionalRHALE(RegionalEffectBase):
             feature_names: list of feature names
         """
 
+        data = data.astype(float)
         if instance_effects is None:
             if model_jac is not None:
                 instance_effects = model_jac(data)
diff --git a/effector/utils.py b/effector/utils.py
index 5e5ac0b..f4727e5 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -44,6 +44,7 @@ def compute_local_effects(
 
     """
     assert data.ndim == 2
+    data = data.astype(float)
 
     # check that limits cover all data points
     assert limits[0] <= np.min(data[:, feature])
@@ -465,6 +466,7 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
+    data = data.astype(float)
     jacobian = np.zeros_like(data)
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
-- 
2.43.0


From 37bfcac228f663915dbf1787376094ec44e3b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 04/42] fix: (RH)ALE plot scales the bin effects also when only
 one axis is scaled

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..116eb54 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1.0 if scale_x is None else scale_x["std"]
+    std_y = 1.0 if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From ece82a7e2b40f7ca574860455a1edf54db55ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 05/42] fix: SHAP-DP plot with scaling works without showing
 the SHAP values

---
 effector/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 116eb54..f5dbd9b 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,13 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    xx = xx if scale_x is None or xx is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        yy = yy if yy is None else trans_affine(yy, scale_y["mean"], scale_y["std"])
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From 7bab962ae60ddc324aa405fc14e8b304287e8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 06/42] fix: d-PDP plot scales derivatives without adding the
 mean of the output

---
 effector/global_effect_pdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..f45438f 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -256,6 +256,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name == "d-pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
-- 
2.43.0


From 9beef7ee4ef172b4408cf6edb118515de8729ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 07/42] fix: RHALE.fit accepts the documented binning method
 'dp'

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 44b0c9d..acefe39 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -547,7 +547,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From 2dfa9823c1c93b992dc0ee5d2566975b1258d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 08/42] fix: splits leaving a subregion with too few points are
 never preferred, at any output scale

---
 effector/partitioning.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..14f9801 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -153,15 +153,13 @@ class Regions:
 
         data = self.data
 
-        big_M = -BIG_M
-
         # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
+        # the accumulated heterogeneity drop if I split foc[i] at index j; -inf if the split is not valid
+        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * -np.inf
 
         # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
+        # the accumulated heterogeneity if I split foc[i] at index j; inf if the split is not valid
+        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * np.inf
 
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
@@ -198,6 +196,11 @@ class Regions:
                         heter_func(x, x_jac) for x, x_jac in zip(x_list_2, x_jac_list_2)
                     ]
 
+                # a split is not valid if the heterogeneity of a subregion cannot be computed,
+                # e.g., because it has too few points
+                if any(h == BIG_M or np.isnan(h) for h in sub_heter):
+                    continue
+
                 # heter_drop: list with the heterogeneity drop after split of foc_i at position j
                 heter_drop = np.array(
                     self.flatten_list(
-- 
2.43.0


From c3d038a41ed91650876958a8bd54ab8e8e7633e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 09/42] fix: ALE/RHALE do not crash when no bin has two points

---
 effector/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effector/utils.py b/effector/utils.py
index f4727e5..478e585 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -267,6 +267,9 @@ def fill_nans(x: np.ndarray) -> np.ndarray:
         return np.isnan(y), lambda z: z.nonzero()[0]
 
     nans, x = nan_helper(bin_effect_1)
+    if np.all(nans):
+        # nothing to interpolate from
+        return bin_effect_1
     bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])
     return bin_effect_1
 
-- 
2.43.0


From 765d98dda85109fc8dc79fb759a1fd99bdbc5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 10/42] fix: declared categorical features may have more values
 than the categorical limit

---
 effector/partitioning.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 14f9801..892d816 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,18 +149,8 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
-
         data = self.data
 
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j; -inf if the split is not valid
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * -np.inf
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j; inf if the split is not valid
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * np.inf
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -169,6 +159,15 @@ class Regions:
             else self.find_positions_cont(data, foc_i, nof_splits)
             for i, foc_i in enumerate(foc)
         ]
+        max_candidates = max([len(positions) for positions in candidate_split_positions])
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j; -inf if the split is not valid
+        weighted_heter_drop = np.ones([len(foc), max_candidates]) * -np.inf
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j; inf if the split is not valid
+        weighted_heter = np.ones([len(foc), max_candidates]) * np.inf
 
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
-- 
2.43.0


From fd13c02f6b2b453c6b0bddb4d3621ac020fbc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 11/42] fix: numerical splits follow the displayed rule (<=, >)
 for values at the split position

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 892d816..d949185 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -314,8 +314,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From 9cbe9b3c79ccef2d3b1da77508ec0e5b56f806e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 12/42] fix: derivatives stored in nodes below the first level
 are those of the node's instances

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index d949185..30aad20 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -436,7 +436,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From 888f72d488cd39d8a9bbde537635f6ba4c861fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 13/42] fix: interaction indices use the current arguments of
 the partial dependence functions

---
 effector/interaction.py | 458 ++++++++++++++++++++--------------------
 1 file changed, 229 insertions(+), 229 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..9d7b3a9 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,229 +1,229 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
-        for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w
+        mu = np.mean(self.interaction_matrix)
+        for i in range(self.nof_features):
+            self.interaction_matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(self.interaction_matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = True
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits)
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From dd3047011a9a52f146a383a6393b58b16b09fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 14/42] fix: non-vectorized multi-feature PDP iterates over the
 features

---
 effector/global_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index f45438f..34b348a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -617,7 +617,7 @@ def pdp_nd_non_vectorized(
         x_new = copy.deepcopy(data)
 
         # set the features of all datapoints to the values of the k-th position
-        for j, feat in features:
+        for j, feat in enumerate(features):
             x_new[:, feat] = x[k, j]
 
         # compute the prediction or the Jacobian wrt the input
-- 
2.43.0


From 645ad0a73b809fc527d5cfad5b8a96948b7d4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 15/42] fix: fixed binning reports failure on constant features
 instead of raising IndexError

---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From 5f6719e315fbdd3839ad5490b155cc35b0273d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 16/42] fix: dynamic programming binning respects the minimum
 points at any output scale

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..f597fc1 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -7,7 +7,7 @@ import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    big_M = np.inf
 
     def __init__(self,
                  feature: int,
-- 
2.43.0


From f5877d908b21edf4fc9a64ba41c00e7bc0c0a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 17/42] fix: dynamic programming binning handles empty bins

---
 effector/bin_splitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f597fc1..65dfd0a 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -270,6 +270,8 @@ class DP(BinBase):
         else:
             start, stop = self._index_to_position(index_before, index_next, K)
             cost = self._bin_cost(start, stop, discount)
+            # a bin without points has no variance
+            cost = 0 if np.isnan(cost) else cost
         return cost
 
     def _argmatrix_to_limits(self, K):
-- 
2.43.0


From 778a8fc691613a2782b88480b0a346ce886cccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 18/42] fix: axis limits of one feature do not drop instances
 from the effects of other features

---
 effector/global_effect_pdp.py  | 11 +++++------
 effector/global_effect_shap.py |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 34b348a..e54c56f 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,7 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -169,7 +167,8 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..d8382a5 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,9 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +296,9 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        _, ind = helpers.prep_nof_instances(
+            nof_shap_values, len(self.feature_effect["feature_" + str(feature)]["yy"])
+        )
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From 0d0330d641f2c731143ef7d3dec4d351811b275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 19/42] fix: refitting for another centering keeps the options
 given to fit

---
 effector/global_effect_ale.py  | 6 +++++-
 effector/global_effect_pdp.py  | 5 ++++-
 effector/global_effect_shap.py | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index acefe39..0e878d9 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,10 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # keep the binning method of the last fit, if any
+            args = self.method_args.get("feature_" + str(feature), {})
+            kwargs = {"binning_method": args["binning_method"]} if "binning_method" in args else {}
+            self.fit(features=feature, centering=centering, **kwargs)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index e54c56f..4b40a91 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -161,7 +161,10 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            # keep the points_for_centering of the last fit, if any
+            args = self.method_args.get("feature_" + str(feature), {})
+            kwargs = {"points_for_centering": args["points_for_centering"]} if "points_for_centering" in args else {}
+            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized, **kwargs)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index d8382a5..7a58f0a 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -228,7 +228,10 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # keep the points_for_centering of the last fit, if any
+            args = self.method_args.get("feature_" + str(feature), {})
+            kwargs = {"points_for_centering": args["points_for_centering"]} if "points_for_centering" in args else {}
+            self.fit(features=feature, centering=centering, **kwargs)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From 967753bd38bb205ebefbb4059c16fd076e076e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 20/42] fix: regional SHAP skips subregions where the spline
 cannot be fitted, like the other methods

---
 effector/regional_effect_shap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 0349659..59a542c 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -85,7 +85,10 @@ class RegionalShapDP(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-            shap.fit(foi, centering, points_for_centering)
+            try:
+                shap.fit(foi, centering, points_for_centering)
+            except Exception:
+                return self.big_m
             _, z = shap.eval(foi, xx, heterogeneity=True)
             return np.mean(z)
 
-- 
2.43.0


From 9820fa0e61d226219eba9666d452f365f62f4595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 21/42] fix: regional ALE plots ALE, not RHALE

---
 effector/regional_effect_ale.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 7a30234..8d5f8cd 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -316,11 +316,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From 342da9d09a514ab1413b484bca42c5ea05b9832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 22/42] fix: regional effects are evaluated on all the
 instances of the subregion

---
 effector/regional_effect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 7d876d9..0551c12 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -162,11 +162,11 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances=self.nof_instances, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances=self.nof_instances, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances=self.nof_instances, feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From b6652d098034cacd7a2f17bc9cfb41677dccb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 23/42] fix: regional plots and evaluations never use scaled
 trees of an earlier plot or fit

---
 effector/regional_effect.py     | 8 ++++++++
 effector/regional_effect_ale.py | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 0551c12..4a0409a 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -128,9 +128,16 @@ class RegionalEffectBase:
         # store the partitioning object
         self.partitioners["feature_{}".format(feature)] = regions
 
+        # discard the scaled trees of a previous fit
+        self._discard_scaled_trees(feature)
+
         # update state
         self.is_fitted[feature] = True
 
+    def _discard_scaled_trees(self, feature):
+        self.tree_full_scaled.pop("feature_{}".format(feature), None)
+        self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
+
     def refit(self, feature):
         if not self.is_fitted[feature]:
             self.fit(feature)
@@ -213,6 +220,7 @@ class RegionalEffectBase:
 
         self.refit(feature)
 
+        self._discard_scaled_trees(feature)
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 8d5f8cd..ce679d4 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -158,6 +158,7 @@ class RegionalRHALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
+        self._discard_scaled_trees(feature)
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
@@ -306,6 +307,7 @@ class RegionalALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
+        self._discard_scaled_trees(feature)
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-- 
2.43.0


From 5dd54694d7d5497e53bb9d71d6b4f9066310579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 24/42] fix: points_for_centering accepts the documented value
 'all'

---
 effector/global_effect_pdp.py  | 2 +-
 effector/global_effect_shap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 4b40a91..75d6dc8 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -58,7 +58,7 @@ class PDPBase(GlobalEffectBase):
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
-            xx = np.linspace(
+            xx = data[:, feature] if points_for_centering == "all" else np.linspace(
                 self.axis_limits[0, feature],
                 self.axis_limits[1, feature],
                 points_for_centering,
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 7a58f0a..085c18d 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -126,7 +126,7 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            x_norm = xx if points_for_centering == "all" else np.linspace(xx[0], xx[-1], points_for_centering)
             y_norm = spline_mean(x_norm)
             norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
         elif centering == "zero_start":
-- 
2.43.0


From 735001941d0994ea89db8158d5a33333f658a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 25/42] fix: REPID uses all the instances it was given

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 9d7b3a9..edf45d4 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -200,7 +200,7 @@ class REPID:
             return self.one_vs_all_matrix[feat]
 
         axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
         pdp.fit(feat)
 
         # find the interaction index
-- 
2.43.0


From 31592cb3df239edc1087bd10bdf9a22a4341ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 26/42] fix: features with a small range relative to their
 offset are not binned as constants

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 65dfd0a..08ccefc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -95,7 +95,7 @@ class BinBase:
         """
         min_points = self.method_args["min_points"]
         # if xs is categorical, then only one bin is possible
-        is_categorical = np.allclose(self.xs_min, self.xs_max)
+        is_categorical = self.xs_min == self.xs_max
 
         # if xs is not categorical, then one bin is possible if there are enough points only in one bin
         dy_dxs = self.data_effect[:, self.feature]
-- 
2.43.0


From c4644024335c1f01df2ec220c02af0d106f8f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 27/42] fix: level statistics of a tree without heterogeneity
 do not divide by zero

---
 effector/partitioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 30aad20..8349c30 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -575,7 +575,9 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                heter_drop = prev_heter - level_stats['heterogeneity']
+                heter_drop_pcg = 100*heter_drop/prev_heter if prev_heter != 0 else 0.
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], heter_drop, heter_drop_pcg))
             prev_heter = level_stats['heterogeneity']
 
 
-- 
2.43.0


From c1e32399015e41e50e72150708ed595aa0be6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 28/42] fix: plotting the H-index does not overwrite the
 diagonal of the interaction matrix

---
 effector/interaction.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index edf45d4..fb03cee 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -139,18 +139,19 @@ class HIndex:
         import matplotlib.pyplot as plt
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
+        # assign the mean to the diagonal values w, only for plotting
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
         for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+            interaction_matrix[i, i] = mu
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(interaction_matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From 4d16a44b73629e93874d876e652873bf9573b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 29/42] fix: regional (RH)ALE plots label the y axis with the
 target name

---
 effector/regional_effect_ale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index ce679d4..496e1cb 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -169,7 +169,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         rhale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
@@ -318,7 +318,7 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names)
+        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-- 
2.43.0


From f857789c953295637f38361e5bc89c8110b462a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 30/42] fix: the one-vs-all H-index centers the model output,
 as Friedman and Popescu define it

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index fb03cee..db4271d 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -106,6 +106,7 @@ class HIndex:
         pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
 
         yy = self.model(self.data)
+        yy = yy - np.mean(yy)
         nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
         denom = np.mean(np.square(yy))
         interaction = nom / denom
-- 
2.43.0


From 1a636d8ec4c69b0af5368b34ec1e58aa249b2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 31/42] fix: SHAP-DP does not mistake close feature values for
 equal ones

---
 effector/global_effect_shap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 085c18d..45a9f68 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -8,6 +8,13 @@ import shap
 from scipy.interpolate import UnivariateSpline
 
 
+class ExactMasker(shap.maskers.Independent):
+    """The default masker of `shap`, without its absolute tolerance on when two feature values are the same."""
+
+    def invariants(self, x):
+        return x == self.data
+
+
 class ShapDP(GlobalEffectBase):
     def __init__(
             self,
@@ -105,7 +112,7 @@ class ShapDP(GlobalEffectBase):
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         # compute shap values
-        shap_explainer = shap.Explainer(self.model, data)
+        shap_explainer = shap.Explainer(self.model, ExactMasker(data))
         explanation = shap_explainer(data)
 
         # extract x and y pais
-- 
2.43.0


From 9e2002a7545b01956de74a39cd3bb309d24a2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 32/42] fix: regional methods reject invalid data shapes,
 centering and ALE binning like the global ones

---
 effector/regional_effect.py      | 2 ++
 effector/regional_effect_ale.py  | 5 +++++
 effector/regional_effect_pdp.py  | 1 +
 effector/regional_effect_shap.py | 1 +
 4 files changed, 9 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 4a0409a..bc88667 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -34,6 +34,8 @@ class RegionalEffectBase:
         """
         Constructor for the RegionalEffect class.
         """
+        assert data.ndim == 2
+
         self.method_name = method_name.lower()
         self.model = model
         self.model_jac = model_jac
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 496e1cb..7fbb319 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -117,6 +117,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
@@ -264,7 +265,11 @@ class RegionalALE(RegionalEffectBase):
         """
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
+        assert binning_method == "fixed" or isinstance(
+            binning_method, binning_methods.Fixed
+        ), "ALE can work only with the fixed binning method!"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..90956e2 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -93,6 +93,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(feat, min_points_per_subregion, centering, nof_instances, points_for_centering, use_vectorized)
 
diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 59a542c..ee05511 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -126,6 +126,7 @@ class RegionalShapDP(RegionalEffectBase):
         """
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, min_points_per_subregion, centering, points_for_centering
-- 
2.43.0


From 27a547b7c018ab45b32536fa39dbace5f55cc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 33/42] fix: integrate_1d_linspace weights its 999 midpoints by
 the right width

---
 effector/utils_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils_integrate.py b/effector/utils_integrate.py
index fda5a41..c945ba1 100644
--- a/effector/utils_integrate.py
+++ b/effector/utils_integrate.py
@@ -27,7 +27,7 @@ def integrate_1d_linspace(func, start, stop):
     """
     x = np.linspace(start, stop, 1000)
     x = 0.5 * (x[:-1] + x[1:])
-    z = np.sum(func(x)) * (stop - start) / 1000
+    z = np.mean(func(x)) * (stop - start)
     return z
 
 
-- 
2.43.0


From 288fbb1a8ce8d7b0b13b41e085702c1fa7ecfc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 34/42] fix: restore the CRLF line endings of interaction.py,
 dropped by mistake in 888f72d

---
 effector/interaction.py | 462 ++++++++++++++++++++--------------------
 1 file changed, 231 insertions(+), 231 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index db4271d..9dd3264 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,231 +1,231 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        yy = yy - np.mean(yy)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w, only for plotting
-        interaction_matrix = self.interaction_matrix.copy()
-        mu = np.mean(interaction_matrix)
-        for i in range(self.nof_features):
-            interaction_matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(interaction_matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        yy = yy - np.mean(yy)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w, only for plotting
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
+        for i in range(self.nof_features):
+            interaction_matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(interaction_matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = True
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From 92d8e576ee43202baec6d071712970dc201e5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 35/42] fix: boolean and small-integer model outputs are not
 wrapped or rejected in differences

---
 effector/global_effect_pdp.py | 14 +++++++-------
 effector/utils.py             |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 75d6dc8..6986e02 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -469,9 +469,9 @@ def pdp_1d_non_vectorized(
         for k in range(nof_instances):
             x_new = copy.deepcopy(data)
             x_new[:, feature] = x[k] + 1e-6
-            y_1 = model(x_new)
+            y_1 = np.asarray(model(x_new), dtype=float)
             x_new[:, feature] = x[k] - 1e-6
-            y_2 = model(x_new)
+            y_2 = np.asarray(model(x_new), dtype=float)
             y = (y_1 - y_2) / (2 * 1e-6)
             y_list.append(y)
         y = np.array(y_list)
@@ -481,7 +481,7 @@ def pdp_1d_non_vectorized(
             x_new[:, feature] = x[k]
             y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
             y_list.append(y)
-        y = np.array(y_list)
+        y = np.array(y_list, dtype=float)
 
     mean_pdp = np.mean(y, axis=1)
     if return_all:
@@ -558,15 +558,15 @@ def pdp_1d_vectorized(
             x_new_2, (x_new_2.shape[0] * x_new_2.shape[1], x_new_2.shape[2])
         )
 
-        y_1 = model(x_new_1)
-        y_2 = model(x_new_2)
+        y_1 = np.asarray(model(x_new_1), dtype=float)
+        y_2 = np.asarray(model(x_new_2), dtype=float)
         y = (y_1 - y_2) / (2 * 1e-6)
         y = np.reshape(y, (x.shape[0], nof_instances))
     else:
         x_new[:, :, feature] = np.expand_dims(x, axis=-1)
         x_new = np.reshape(x_new, (x_new.shape[0] * x_new.shape[1], x_new.shape[2]))
         y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
-        y = np.reshape(y, (x.shape[0], nof_instances))
+        y = np.reshape(y, (x.shape[0], nof_instances)).astype(float)
 
     mean_pdp = np.mean(y, axis=1)
     if return_all:
@@ -691,7 +691,7 @@ def pdp_nd_vectorized(
         x_new[:, :, features[j]] = np.expand_dims(x[:, j], axis=-1)
     x_new = np.reshape(x_new, (x_new.shape[0] * x_new.shape[1], x_new.shape[2]))
     y = model(x_new)[:, features] if model_returns_jac else model(x_new)
-    y = np.reshape(y, (x.shape[0], nof_instances))
+    y = np.reshape(y, (x.shape[0], nof_instances)).astype(float)
     mean_pdp = np.mean(y, axis=1)
     if heterogeneity:
         std = np.std(y, axis=1)
diff --git a/effector/utils.py b/effector/utils.py
index 478e585..938859c 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -60,7 +60,7 @@ def compute_local_effects(
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
     dx = limits[ind] - limits[ind - 1]
-    data_effect = model(right_lim) - model(left_lim)
+    data_effect = np.asarray(model(right_lim), dtype=float) - np.asarray(model(left_lim), dtype=float)
     return np.squeeze(data_effect) / dx
 
 
@@ -474,5 +474,5 @@ def compute_jacobian_numerically(
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
         data_plus[:, f] += eps
-        jacobian[:, f] = (model(data_plus) - model(data)) / eps
+        jacobian[:, f] = (np.asarray(model(data_plus), dtype=float) - np.asarray(model(data), dtype=float)) / eps
     return jacobian
-- 
2.43.0


From 8555f991d5e5132570512e0409a3ae786ba8f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 36/42] fix: SHAP-DP of features with two or three values fits
 a spline these values determine

---
 effector/global_effect_shap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 45a9f68..5987f6c 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -124,12 +124,15 @@ class ShapDP(GlobalEffectBase):
         xx = xx[idx]
         yy = yy[idx]
 
+        # a spline of degree k needs more than k different positions
+        k = max(1, min(3, np.unique(xx).size - 1))
+
         # fit spline_mean to xx, yy pairs
-        spline_mean = UnivariateSpline(xx, yy)
+        spline_mean = UnivariateSpline(xx, yy, k=k)
 
         # fit spline_mean to the sqrt of the residuals
         yy_std = np.abs(yy - spline_mean(xx))
-        spline_std = UnivariateSpline(xx, yy_std)
+        spline_std = UnivariateSpline(xx, yy_std, k=k)
 
         # compute norm constant
         if centering == "zero_integral":
-- 
2.43.0


From 92eee735d44c58e9a879f9d68f263e090b3709b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 37/42] fix: errors of the model during a regional fit are
 reported, not taken for invalid subregions

---
 effector/regional_effect_ale.py  |  6 ++++--
 effector/regional_effect_pdp.py  | 12 +++++++-----
 effector/regional_effect_shap.py |  7 ++++---
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 7fbb319..3af61c3 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -72,7 +72,8 @@ class RegionalRHALE(RegionalEffectBase):
             rhale = RHALE(data, self.model, self.model_jac, "all", None, instance_effects)
             try:
                 rhale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except AssertionError:
+                # no valid binning for this subregion; errors of the model are not hidden
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
@@ -226,7 +227,8 @@ class RegionalALE(RegionalEffectBase):
             ale = ALE(data, self.model, "all", None, instance_effects)
             try:
                 ale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except AssertionError:
+                # no valid binning for this subregion; errors of the model are not hidden
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 90956e2..2777ff6 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -40,15 +40,16 @@ class RegionalPDPBase(RegionalEffectBase):
             if data.shape[0] < min_points:
                 return BIG_M
 
+            # no instance of the subregion inside the axis limits
+            if helpers.drop_points_outside_axis_limits(data, self.axis_limits, foi).shape[0] == 0:
+                return BIG_M
+
             if self.method_name == "pdp":
                 pdp = PDP(data, self.model, self.axis_limits, nof_instances=nof_instances)
             else:
                 pdp = DerPDP(data, self.model, self.model_jac, self.axis_limits, nof_instances=nof_instances)
 
-            try:
-                pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
-            except:
-                return BIG_M
+            pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
 
             # heterogeneity is the mean heterogeneity over the curve
             axis_limits = helpers.axis_limits_from_data(data)
@@ -56,7 +57,8 @@ class RegionalPDPBase(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
                 _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
-            except:
+            except AssertionError:
+                # empty axis limits; errors of the model are not hidden
                 return BIG_M
             return np.mean(z)
 
diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index ee05511..cfd081c 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -85,10 +85,11 @@ class RegionalShapDP(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-            try:
-                shap.fit(foi, centering, points_for_centering)
-            except Exception:
+            if not shap.axis_limits[0, foi] < shap.axis_limits[1, foi]:
+                # constant feature in this subregion
                 return self.big_m
+
+            shap.fit(foi, centering, points_for_centering)
             _, z = shap.eval(foi, xx, heterogeneity=True)
             return np.mean(z)
 
-- 
2.43.0


From 55cea7a19ad1f296cb2b79fc19db4dc3c4a4b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 38/42] fix: SHAP-DP of features with repeated values is finite
 whatever the spread at a value

---
 effector/global_effect_shap.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 5987f6c..d2f85f9 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -15,6 +15,23 @@ class ExactMasker(shap.maskers.Independent):
         return x == self.data
 
 
+def fit_spline(xx: np.ndarray, yy: np.ndarray) -> UnivariateSpline:
+    """Fit the default smoothing spline of `scipy` to the points `(xx, yy)`, with `xx` sorted.
+
+    Points at the same position enter as their mean, with the weight of all of them:
+    the smoothing spline of repeated positions is not finite when their spread exceeds the smoothing factor.
+    """
+    x, inverse, counts = np.unique(xx, return_inverse=True, return_counts=True)
+    y = np.bincount(inverse, yy) / counts
+
+    # what remains of the default smoothing factor
+    s = max(0., xx.size - np.sum((yy - y[inverse]) ** 2))
+
+    # a spline of degree k needs more than k different positions
+    k = max(1, min(3, x.size - 1))
+    return UnivariateSpline(x, y, w=np.sqrt(counts), s=s, k=k)
+
+
 class ShapDP(GlobalEffectBase):
     def __init__(
             self,
@@ -124,15 +141,12 @@ class ShapDP(GlobalEffectBase):
         xx = xx[idx]
         yy = yy[idx]
 
-        # a spline of degree k needs more than k different positions
-        k = max(1, min(3, np.unique(xx).size - 1))
-
         # fit spline_mean to xx, yy pairs
-        spline_mean = UnivariateSpline(xx, yy, k=k)
+        spline_mean = fit_spline(xx, yy)
 
         # fit spline_mean to the sqrt of the residuals
         yy_std = np.abs(yy - spline_mean(xx))
-        spline_std = UnivariateSpline(xx, yy_std, k=k)
+        spline_std = fit_spline(xx, yy_std)
 
         # compute norm constant
         if centering == "zero_integral":
-- 
2.43.0


From 86beaf53eea8af594aced099791b17e210117416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 39/42] fix: REPID.plot computes the features left out of an
 earlier fit instead of drawing the empty symbol

---
 effector/interaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 9dd3264..6d341cf 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -195,7 +195,8 @@ class REPID:
         for i, feat in enumerate(features):
             print("Feature: ", feat)
             self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
+        # fitted, only if no feature has been left out
+        self.fitted_one_vs_all_matrix = not np.any(self.one_vs_all_matrix == self.empty_symbol)
 
     def eval_one_vs_all(self, feat):
         if self.one_vs_all_matrix[feat] != self.empty_symbol:
-- 
2.43.0


From 07d0d39a4262b5f12b1dedc75989f65492abfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 40/42] fix: SHAP values of more than ten features depended on
 (and reseeded) the global random state

---
 effector/global_effect_shap.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index d2f85f9..129307d 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -128,9 +128,14 @@ class ShapDP(GlobalEffectBase):
         # drop points outside of limits
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
-        # compute shap values
-        shap_explainer = shap.Explainer(self.model, ExactMasker(data))
-        explanation = shap_explainer(data)
+        # compute shap values; for more than ten features `shap` draws random permutations,
+        # which must neither depend on the global random state nor disturb it
+        random_state = np.random.get_state()
+        try:
+            shap_explainer = shap.Explainer(self.model, ExactMasker(data), seed=0)
+            explanation = shap_explainer(data)
+        finally:
+            np.random.set_state(random_state)
 
         # extract x and y pais
         yy = explanation.values[:, feature]
-- 
2.43.0


From 87eb185c666640c03f0f17f640ef299d9a4a400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:24 +0000
Subject: [PATCH 41/42] fix: numerical d-PDP at single-precision query points
 does not lose the differentiation step

---
 effector/global_effect_pdp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 6986e02..42a8d22 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -462,6 +462,7 @@ def pdp_1d_non_vectorized(
         The PDP values `y` that correspond to `x`, if heterogeneity is False, `(y, std, stderr)` otherwise
 
     """
+    x = x.astype(float)
     nof_instances = x.shape[0]
 
     y_list = []
@@ -540,6 +541,7 @@ def pdp_1d_vectorized(
 
     """
 
+    x = x.astype(float)
     nof_instances = data.shape[0]
     x_new = copy.deepcopy(data)
     x_new = np.expand_dims(x_new, axis=0)
-- 
2.43.0


From c07af72ed12c8e2e691ad6baf0686d856968ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:24 +0000
Subject: [PATCH 42/42] fix: expecation_2D integrates over the limits of the
 two features it averages out

---
 effector/utils_integrate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/effector/utils_integrate.py b/effector/utils_integrate.py
index c945ba1..85bae36 100644
--- a/effector/utils_integrate.py
+++ b/effector/utils_integrate.py
@@ -89,12 +89,15 @@ def expecation_2D(xs, func, p_xc, s, axis_limits):
         x = np.expand_dims(x, axis=0)
         return func(x)[0] * p_xc(xc1, xc2)
 
+    # the integration variables are the two features other than s
+    c1, c2 = [i for i in range(3) if i != s]
+
     def gfun(xc2):
-        return axis_limits[0, 1]
+        return axis_limits[0, c1]
 
     def hfun(xxc2):
-        return axis_limits[1, 1]
+        return axis_limits[1, c1]
 
     return integrate.dblquad(
-        func_wrap, axis_limits[0, 2], axis_limits[1, 2], gfun, hfun
+        func_wrap, axis_limits[0, c2], axis_limits[1, c2], gfun, hfun
     )
-- 
2.43.0

