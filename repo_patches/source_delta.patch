From 0201c4181140846b92d40a242bcef632bb111f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/42] fix: fitting one feature no longer drops instances for
 the other features (PDP, d-PDP, SHAP-DP)

---
 effector/global_effect_pdp.py  | 15 +++++++++------
 effector/global_effect_shap.py |  9 +++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..241946a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,9 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -169,7 +169,10 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..8b80946 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,11 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(
+            self.data, self.axis_limits, feature
+        )
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +298,8 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        nof_fitted = self.feature_effect["feature_" + str(feature)]["yy"].shape[0]
+        _, ind = helpers.prep_nof_instances(nof_shap_values, nof_fitted)
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From 43a2bd67db2cbe19ab5e0077a97bc6d07f3dbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 02/42] fix: eval/plot with another centering keeps the binning
 method and arguments of the last fit

---
 effector/global_effect_ale.py  | 6 +++++-
 effector/global_effect_pdp.py  | 5 ++++-
 effector/global_effect_shap.py | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..ebde003 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,10 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # a refit that only changes the centering keeps the binning method of the last fit
+            fit_args = dict(self.method_args.get("feature_" + str(feature), {}))
+            fit_args["centering"] = centering
+            self.fit(features=feature, **fit_args)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 241946a..72a23ab 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -163,7 +163,10 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            # a refit that only changes the centering keeps the rest of the last fit's arguments
+            fit_args = dict(self.method_args.get("feature_" + str(feature), {}))
+            fit_args["centering"] = centering
+            self.fit(features=feature, use_vectorized=use_vectorized, **fit_args)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 8b80946..7e526cb 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -230,7 +230,10 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            # a refit that only changes the centering keeps the rest of the last fit's arguments
+            fit_args = dict(self.method_args.get("feature_" + str(feature), {}))
+            fit_args["centering"] = centering
+            self.fit(features=feature, **fit_args)
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From c8c65a0ce9462b306b33f0c25422e72b94dbe923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 03/42] fix: ALE local effects divide by the width of their own
 bin

---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f531864 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -59,7 +59,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From 45a39237cad56c575a17b78029fed4e5ccc89547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 04/42] fix: second-level tree nodes carry their instance
 effects, not their data

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From f530e1112913229f4e29121ae8a38352c08c0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 05/42] fix: an instance lying on a split position goes to the
 '<=' node, as the node names say

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..cbe3de5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From 2bfd3760ec35978ff5d0a569df410ee6334e710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 06/42] fix: regional eval/plot use all the instances of the
 region instead of re-sampling it

---
 effector/regional_effect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..b0aedd1 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -162,11 +162,11 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 58816e92962383d603528423e81e46cd62f75333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/42] fix: RegionalALE/RegionalRHALE eval uses the binning
 method given to fit, as plot does

---
 effector/regional_effect.py     |  5 +++++
 effector/regional_effect_ale.py | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index b0aedd1..206a35f 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -170,6 +170,10 @@ class RegionalEffectBase:
         else:
             raise NotImplementedError
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        """Hook for methods that must fit the regional effect with specific arguments before evaluating it."""
+        pass
+
     def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):
         """
         Evaluate the regional effect for a given feature and node.
@@ -197,6 +201,7 @@ class RegionalEffectBase:
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
         fe_method = self._create_fe_object(data, data_effect, None)
+        self._fit_fe_object(fe_method, feature, centering)
         return fe_method.eval(feature, xs, heterogeneity, centering)
 
     def fit(self, *args, **kwargs):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..b0d5594 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -144,6 +144,11 @@ class RegionalRHALE(RegionalEffectBase):
                 "binning_method": binning_method,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        # evaluate with the binning method used for finding the subregions
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
@@ -292,6 +297,11 @@ class RegionalALE(RegionalEffectBase):
                 "centering": centering,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        # evaluate with the binning method used for finding the subregions
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
-- 
2.43.0


From 4b9b5b9142a63ce719a13f3ba2e9d049e08fe484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 08/42] fix: RHALE.fit accepts the documented
 binning_method="dp"

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index ebde003..1af49f8 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -551,7 +551,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From e765ce2610ff6c491edc3683844556e220724124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 09/42] fix: H-index and REPID call the PDP functions with
 their current signature

---
 effector/interaction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..ccd6fc7 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -115,14 +115,14 @@ class HIndex:
 
     def _pdp_1d(self, feature, x):
         # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
     def _pdp_2d(self, feature1, feature2, x1, x2):
         features = [feature1, feature2]
         x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -131,7 +131,7 @@ class HIndex:
         features = [i for i in range(self.nof_features) if i != feature]
         assert len(features) == x.shape[1]
 
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
         c = np.mean(yy)
         return yy - c
 
@@ -208,7 +208,7 @@ class REPID:
         stop = axis_limits[:, feat][1]
         x = np.linspace(start, stop, 21)
         x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
         interaction = np.mean(std)
 
         # store the interaction index
-- 
2.43.0


From fac01a7933548bd7171d4c029b61f1b15d4de326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 10/42] fix: one-vs-all H-index centers the model output, like
 the partial dependences it is compared to

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index ccd6fc7..8cc6fa6 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -106,6 +106,7 @@ class HIndex:
         pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
 
         yy = self.model(self.data)
+        yy = yy - np.mean(yy)
         nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
         denom = np.mean(np.square(yy))
         interaction = nom / denom
-- 
2.43.0


From 9d176f0b419ebc852e73b57d9f7d3be4b5ee0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 11/42] fix: ALE/RHALE plots scale the bin effects also when
 only one axis is scaled

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..116eb54 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1.0 if scale_x is None else scale_x["std"]
+    std_y = 1.0 if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From 15ba073e3ad1121f493686d9dfa2c36fa5d67970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 12/42] fix: SHAP-DP plots can be scaled when no SHAP values
 are scattered

---
 effector/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 116eb54..779a7e6 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,15 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    if scale_x is not None and xx is not None:
+        xx = trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        if yy is not None:
+            yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From c65902d2eb7660bde0822aec2406ca78a81935be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 13/42] fix: d-PDP plots scale derivatives by std_y/std_x and
 label the axis dy/dx

---
 effector/global_effect_pdp.py |  1 +
 effector/visualization.py     | 16 +++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 72a23ab..22876d8 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -262,6 +262,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name != "pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
diff --git a/effector/visualization.py b/effector/visualization.py
index 779a7e6..ca43f03 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -165,15 +165,17 @@ def plot_pdp_ice(
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
-    if scale_y is not None:
+    if is_derivative:
+        std_x = 1.0 if scale_x is None else scale_x["std"]
+        std_y = 1.0 if scale_y is None else scale_y["std"]
+        std_err = trans_bin(std_err, std_x, std_y)
+        y_pdp_output = trans_bin(y_pdp_output, std_x, std_y)
+        y_ice_outputs = trans_bin(y_ice_outputs, std_x, std_y)
+    elif scale_y is not None:
         std = trans_scale(std, scale_y["std"], square=False)
         std_err = trans_scale(std_err, scale_y["std"], square=False)
-        if is_derivative:
-            y_pdp_output = trans_scale(y_pdp_output, scale_y["std"], square=False)
-            y_ice_outputs = trans_scale(y_ice_outputs, scale_y["std"], square=False)
-        elif not is_derivative:
-            y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
-            y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
+        y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
+        y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
 
     # if avg_output is not None and scale_y is not None:
     #     if not is_derivative:
-- 
2.43.0


From 48ae08e63e5f0a2d2adf56934273e2f46e9aea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 14/42] fix: the std_err band of PDP plots is the standard
 error, not the std

---
 effector/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index ca43f03..cea0b20 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -159,7 +159,7 @@ def plot_pdp_ice(
 
     y_ice_outputs = yy
     std = np.std(y_ice_outputs, axis=1)
-    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))
+    std_err = np.sqrt(np.var(y_ice_outputs, axis=1) / y_ice_outputs.shape[1])
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-- 
2.43.0


From 6cee003df5002c449d676e54b81267427ea54177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 15/42] fix: RegionalALE.plot draws the ALE of the region, not
 its RHALE

---
 effector/regional_effect_ale.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index b0d5594..87cdb9b 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -325,11 +325,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = self._create_fe_object(data, data_effect, feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From 38f5df2c6e27bc73d80b8e01ea0f39610b191569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 16/42] fix: RegionalRHALE.plot passes the target name to the
 plot

---
 effector/regional_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 87cdb9b..6b4c23e 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -172,7 +172,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        rhale = self._create_fe_object(data, data_effect, feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         rhale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-- 
2.43.0


From 1b7052f3b3b305c81fed031c7bdda76205d23a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 17/42] fix: ALE/RHALE do not depend on the magnitude of the
 feature (closed last bin, flat tail)

---
 effector/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index f531864..b4d6236 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -50,8 +50,8 @@ def compute_local_effects(
     assert limits[-1] >= np.max(data[:, feature])
 
     # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
     ind = np.digitize(data[:, feature], limits)
+    ind[data[:, feature] == limits[-1]] = limits.shape[0] - 1
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -140,9 +140,8 @@ def compute_bin_effect(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
-    ind = np.digitize(xs, limits_enh)
+    ind = np.digitize(xs, limits)
+    ind[xs == limits[-1]] = limits.shape[0] - 1
     # assert np.alltrue(ind > 0)
 
     # bin effect is the mean of all points that lie in the bin
@@ -212,10 +211,8 @@ def compute_bin_variance(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    eps = 1e-8
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
-    ind = np.digitize(xs, limits_enh)
+    ind = np.digitize(xs, limits)
+    ind[xs == limits[-1]] = limits.shape[0] - 1
     # assert np.alltrue(ind > 0)
 
     # variance of the effect in each bin
@@ -356,7 +353,7 @@ def compute_accumulated_effect(
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-    tmp = np.concatenate([[0.0], bin_effect, [bin_effect[-1]]])
+    tmp = np.concatenate([[0.0], bin_effect, [0.0]])
     remaining_effect = deltas * tmp[ind]
 
     # final effect
-- 
2.43.0


From 68e3435e319c2a8e3f690c01a28112e9fee28cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 18/42] fix: Fixed binning refuses a constant feature instead
 of crashing

---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From fd0064b024cd05a72f03dd9483b6422d9f0f30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 19/42] fix: binning accepts the documented min_points=None

---
 effector/bin_splitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..a7f047a 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -175,7 +175,7 @@ class Greedy(BinBase):
         self.method_args = {
             "init_nof_bins": init_nof_bins,
             "discount": discount,
-            "min_points": min_points,
+            "min_points": 0 if min_points is None else min_points,
             "cat_limit": cat_limit,
         }
 
@@ -302,7 +302,7 @@ class DP(BinBase):
     def find(self, max_nof_bins: int = 30, min_points: int = 10, discount: float = 0.3, cat_limit: int = 10):
         """Find the optimal binning."""
 
-        self.method_args = {"max_nof_bins": max_nof_bins, "min_points": min_points, "discount": discount, "cat_limit": cat_limit}
+        self.method_args = {"max_nof_bins": max_nof_bins, "min_points": 0 if min_points is None else min_points, "discount": discount, "cat_limit": cat_limit}
 
         self.min_points = min_points
         big_M = self.big_M
@@ -360,7 +360,7 @@ class Fixed(BinBase):
         super(Fixed, self).__init__(feature, data, data_effect, axis_limits)
 
     def find(self, nof_bins: int, min_points: typing.Union[None, int] = 10, cat_limit: int = 10):
-        self.method_args = {"nof_bins": nof_bins, "min_points": min_points, "cat_limit": cat_limit}
+        self.method_args = {"nof_bins": nof_bins, "min_points": 0 if min_points is None else min_points, "cat_limit": cat_limit}
 
         if self._none_valid_binning():
             self.limits = False
-- 
2.43.0


From 817a110daae1444549b9bd5c4d175f534220daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 20/42] fix: the last limit of DP binning is exactly the right
 axis limit

---
 effector/bin_splitting.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index a7f047a..3119b9e 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -250,10 +250,8 @@ class DP(BinBase):
         super(DP, self).__init__(feature, data, data_effect, axis_limits)
 
     def _index_to_position(self, index_start, index_stop, K):
-        dx = (self.xs_max - self.xs_min) / K
-        start = self.xs_min + index_start * dx
-        stop = self.xs_min + index_stop * dx
-        return start, stop
+        positions = np.linspace(self.xs_min, self.xs_max, num=K + 1, endpoint=True)
+        return positions[index_start], positions[index_stop]
 
     def _cost_of_move(self, index_before, index_next, K, discount):
         """Compute the cost of move.
@@ -275,7 +273,7 @@ class DP(BinBase):
     def _argmatrix_to_limits(self, K):
         assert "argmatrix" in self.method_outputs, "argmatrix not found in method_outputs"
         argmatrix = self.method_outputs["argmatrix"]
-        dx = (self.xs_max - self.xs_min) / K
+        positions = np.linspace(self.xs_min, self.xs_max, num=K + 1, endpoint=True)
 
         lim_indices = [int(argmatrix[-1, -1])]
         for j in range(K - 2, 0, -1):
@@ -293,7 +291,7 @@ class DP(BinBase):
                 lim_indices_1.append(lim)
                 before = lim
 
-        limits = self.xs_min + np.array(lim_indices_1) * dx
+        limits = positions[np.array(lim_indices_1)]
         dx_list = np.array(
             [limits[i + 1] - limits[i] for i in range(limits.shape[0] - 1)]
         )
-- 
2.43.0


From d96e27ceefe34240cbb1d258ffb53a2b9fd459ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 21/42] fix: DP binning never selects bins without enough (or
 any) points

---
 effector/bin_splitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 3119b9e..63102ee 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -7,7 +7,7 @@ import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    big_M = np.inf
 
     def __init__(self,
                  feature: int,
@@ -268,6 +268,8 @@ class DP(BinBase):
         else:
             start, stop = self._index_to_position(index_before, index_next, K)
             cost = self._bin_cost(start, stop, discount)
+            # a bin without points has no variance, so it is not admissible
+            cost = big_M if np.isnan(cost) else cost
         return cost
 
     def _argmatrix_to_limits(self, K):
-- 
2.43.0


From 896cf98b8fbb4611fdb833a9dd48983eb57fb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 22/42] fix: data of integer type no longer truncates the
 values set by PDP, ALE and the numerical Jacobian

---
 effector/global_effect.py   | 2 +-
 effector/helpers.py         | 7 ++++++-
 effector/interaction.py     | 4 ++--
 effector/regional_effect.py | 2 +-
 effector/utils.py           | 1 +
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..0809709 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -60,7 +60,7 @@ class GlobalEffectBase(ABC):
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        data = data[self.indices, :]
+        data = helpers.prep_data(data[self.indices, :])
 
         self.data: np.ndarray = data
         self.dim = self.data.shape[1]
diff --git a/effector/helpers.py b/effector/helpers.py
index 872c684..05fb551 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -122,4 +122,9 @@ def drop_points_outside_axis_limits(data: np.ndarray, axis_limits: np.ndarray, f
     """Drop points outside the axis limits"""
     data = data[data[:, feature] >= axis_limits[0, feature]]
     data = data[data[:, feature] <= axis_limits[1, feature]]
-    return data
\ No newline at end of file
+    return data
+
+
+def prep_data(data: np.ndarray) -> np.ndarray:
+    """Feature values are replaced by real numbers, so data of integer (or bool) type must not truncate them"""
+    return data if np.issubdtype(data.dtype, np.floating) else data.astype(float)
diff --git a/effector/interaction.py b/effector/interaction.py
index 8cc6fa6..f1b89f5 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -25,7 +25,7 @@ class HIndex:
         """
         # setters
         self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
+        self.data = helpers.prep_data(data[self.indices])
         self.model = model
         self.nof_features = self.data.shape[1]
 
@@ -175,7 +175,7 @@ class REPID:
 
     def __init__(self, data, model, model_jac, nof_instances):
         self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
+        self.data = helpers.prep_data(data[self.indices])
         self.dim = self.data.shape[1]
 
         self.model = model
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 206a35f..7470338 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -42,7 +42,7 @@ class RegionalEffectBase:
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        self.data = data[self.indices, :]
+        self.data = helpers.prep_data(data[self.indices, :])
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
diff --git a/effector/utils.py b/effector/utils.py
index b4d6236..944e452 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -468,6 +468,7 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
+    data = helpers.prep_data(data)
     jacobian = np.zeros_like(data)
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
-- 
2.43.0


From eadd7ef1724ee5d9c09a897e3d574c7422d14ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 23/42] fix: features declared categorical can have any number
 of unique values as split candidates

---
 effector/partitioning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cbe3de5..06bbbf3 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,10 +149,11 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
-
         data = self.data
 
+        # a categorical feature has one position per unique value, which may be more than cat_limit
+        cat_limit = max([self.cat_limit] + [len(np.unique(data[:, i])) for i, t in zip(foc, foc_types) if t == "cat"])
+
         big_M = -BIG_M
 
         # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-- 
2.43.0


From d7aaa90164ecec849b8337c2dc6b138245539247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 24/42] fix: RegionalPDP measures the heterogeneity of the
 centered ICE curves when centering is asked

---
 effector/regional_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..ee67e02 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -55,7 +55,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
-                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
+                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
             except:
                 return BIG_M
             return np.mean(z)
-- 
2.43.0


From c185c704386617e60fa0b39bf4fa591b66ece5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 25/42] fix: SHAP-DP is centered on its axis limits, where it
 is evaluated and plotted

---
 effector/global_effect_shap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 7e526cb..6b5eff7 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -128,11 +128,12 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            start, stop = self.axis_limits[0, feature], self.axis_limits[1, feature]
+            x_norm = np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
+            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
         elif centering == "zero_start":
-            norm_const = spline_mean(xx[0])
+            norm_const = spline_mean(self.axis_limits[0, feature])
         else:
             norm_const = helpers.EMPTY_SYMBOL
 
-- 
2.43.0


From fd78eddfeeb68fcfc97dd8a04e7b03f09b14281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 26/42] fix: plotting the H-index matrix does not overwrite its
 diagonal

---
 effector/interaction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index f1b89f5..d8771e9 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -141,17 +141,18 @@ class HIndex:
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
         # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
         for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+            interaction_matrix[i, i] = mu
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(interaction_matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From bb80718a75ac8f1b144354af4756426a4f49611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 27/42] fix: REPID uses all the instances it was given instead
 of re-sampling them

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index d8771e9..12ee4b3 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -202,7 +202,7 @@ class REPID:
             return self.one_vs_all_matrix[feat]
 
         axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
         pdp.fit(feat)
 
         # find the interaction index
-- 
2.43.0


From da35f02bc8cdc405463d636340f56a441b6ecc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 28/42] fix: points_for_centering="all" uses all the dataset
 points, as documented

---
 effector/global_effect_pdp.py  | 2 +-
 effector/global_effect_shap.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 22876d8..0b1c6dd 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -60,7 +60,7 @@ class PDPBase(GlobalEffectBase):
         )
 
         if centering is True or centering == "zero_integral":
-            xx = np.linspace(
+            xx = data[:, feature] if points_for_centering == "all" else np.linspace(
                 self.axis_limits[0, feature],
                 self.axis_limits[1, feature],
                 points_for_centering,
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 6b5eff7..7e28749 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -129,9 +129,9 @@ class ShapDP(GlobalEffectBase):
         # compute norm constant
         if centering == "zero_integral":
             start, stop = self.axis_limits[0, feature], self.axis_limits[1, feature]
-            x_norm = np.linspace(start, stop, points_for_centering)
+            x_norm = xx if points_for_centering == "all" else np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
+            norm_const = np.trapz(y_norm, x_norm) / (x_norm[-1] - x_norm[0])
         elif centering == "zero_start":
             norm_const = spline_mean(self.axis_limits[0, feature])
         else:
-- 
2.43.0


From 5d931d80fb9c491deecb6256019559b74f046ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 29/42] fix: show_partitioning does not crash on a level
 without heterogeneity

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 06bbbf3..0ad44a0 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -574,7 +574,7 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter if prev_heter != 0 else 0.))
             prev_heter = level_stats['heterogeneity']
 
 
-- 
2.43.0


From 848abc29dd4b43eabf42b7920a82036d3c9cb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 30/42] fix: eval/plot after a plot with scaled x do not use
 its (possibly outdated) scaled tree

---
 effector/regional_effect.py     | 7 +++++++
 effector/regional_effect_ale.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 7470338..d21c811 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -125,6 +125,10 @@ class RegionalEffectBase:
         self.tree_full["feature_{}".format(feature)] = regions.splits_to_tree()
         self.tree_pruned["feature_{}".format(feature)] = regions.splits_to_tree(True)
 
+        # the scaled trees of a previous fit are not valid anymore
+        self.tree_full_scaled.pop("feature_{}".format(feature), None)
+        self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
+
         # store the partitioning object
         self.partitioners["feature_{}".format(feature)] = regions
 
@@ -221,6 +225,9 @@ class RegionalEffectBase:
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 6b4c23e..724c217 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -165,6 +165,9 @@ class RegionalRHALE(RegionalEffectBase):
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
@@ -318,6 +321,9 @@ class RegionalALE(RegionalEffectBase):
         if scale_x_list is not None:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
+        else:
+            self.tree_full_scaled.pop("feature_{}".format(feature), None)
+            self.tree_pruned_scaled.pop("feature_{}".format(feature), None)
 
         data, data_effect, name = self.get_node_info(feature, node_idx)
         feature_names = copy.deepcopy(self.feature_names)
-- 
2.43.0


From 201f51fe111427c28ffbf167686ab826d34553c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 31/42] fix: Greedy and DP binning do not collapse to one bin
 when the range is small relative to the magnitude

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 63102ee..3c4ad45 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -95,7 +95,7 @@ class BinBase:
         """
         min_points = self.method_args["min_points"]
         # if xs is categorical, then only one bin is possible
-        is_categorical = np.allclose(self.xs_min, self.xs_max)
+        is_categorical = self.xs_min == self.xs_max
 
         # if xs is not categorical, then one bin is possible if there are enough points only in one bin
         dy_dxs = self.data_effect[:, self.feature]
-- 
2.43.0


From d21c8ecbf547e88253d12f4b4617ca64784447da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 32/42] fix: a bin of identical effects costs exactly zero, so
 constant effects are not split by rounding noise

---
 effector/bin_splitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 3c4ad45..37c321f 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -53,7 +53,9 @@ class BinBase:
             cost = self.big_M
         else:
             discount_for_more_points = 1 - discount * (data_effect.size / nof_points)
-            cost = np.var(data_effect) * (stop - start) * discount_for_more_points
+            # identical effects have exactly zero variance, whatever their floating-point mean is
+            variance = np.var(data_effect - data_effect[:1])
+            cost = variance * (stop - start) * discount_for_more_points
         return cost
 
     def _bin_valid(self, start, stop):
-- 
2.43.0


From 46f27dec5938c2ab25f5de450c2de98f055b615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 33/42] fix: regional fits refuse an unknown centering instead
 of reporting no subregions

---
 effector/regional_effect_ale.py | 2 ++
 effector/regional_effect_pdp.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 724c217..4aec63f 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -116,6 +116,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
@@ -271,6 +272,7 @@ class RegionalALE(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, binning_method, min_points_per_subregion, centering
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index ee67e02..aa2f722 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -93,6 +93,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(feat, min_points_per_subregion, centering, nof_instances, points_for_centering, use_vectorized)
 
-- 
2.43.0


From 9eff33eb901fc9f70dbeb2d61f88a67aaa425cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 34/42] fix: RegionalALE refuses binning methods other than
 Fixed

---
 effector/regional_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 4aec63f..e027895 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -223,7 +223,7 @@ class RegionalALE(RegionalEffectBase):
 
     def _create_heterogeneity_function(self, foi, binning_method, min_points, centering):
         binning_method = prep_binning_method(binning_method)
-        isinstance(binning_method, binning_methods.Fixed)
+        assert isinstance(binning_method, binning_methods.Fixed), "ALE only supports Fixed binning"
         
         def heter(data, instance_effects=None) -> float:
             if data.shape[0] < min_points:
-- 
2.43.0


From 84a475852aa4162549b8d6aca6a67227a0616cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 35/42] fix: RegionalShapDP counts a region where no spline can
 be fitted as maximally heterogeneous

---
 effector/regional_effect_shap.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 0349659..8dbb1c0 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -85,9 +85,13 @@ class RegionalShapDP(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-            shap.fit(foi, centering, points_for_centering)
-            _, z = shap.eval(foi, xx, heterogeneity=True)
-            return np.mean(z)
+            # a region where no spline can be fitted counts as maximally heterogeneous
+            try:
+                shap.fit(foi, centering, points_for_centering)
+                _, z = shap.eval(foi, xx, heterogeneity=True)
+            except Exception:
+                return self.big_m
+            return np.mean(z) if np.all(np.isfinite(z)) else self.big_m
 
         return heterogeneity_function
 
@@ -123,6 +127,7 @@ class RegionalShapDP(RegionalEffectBase):
         """
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
         features = helpers.prep_features(features, self.dim)
+        centering = helpers.prep_centering(centering)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
                 feat, min_points_per_subregion, centering, points_for_centering
-- 
2.43.0


From e70770b9a99b4d1b54c3adbdce39029868a412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 36/42] fix: the region search crashed when no candidate split
 was acceptable (the unset cells of the drop matrix could win the argmax)

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 0ad44a0..38696f5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -158,7 +158,7 @@ class Regions:
 
         # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
         # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
+        weighted_heter_drop = np.full([len(foc), max(nof_splits, cat_limit)], -np.inf)
 
         # weighted_heter[i,j] (i index of foc and j index of split position) is
         # the accumulated heterogeneity if I split foc[i] at index j
-- 
2.43.0


From 5ac22fc38ce0da664d5678e2e1b2f83b48677e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 37/42] fix: REPID.plot after a fit of some features draws the
 placeholder for the others

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 12ee4b3..829e937 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -195,7 +195,7 @@ class REPID:
         for i, feat in enumerate(features):
             print("Feature: ", feat)
             self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
+        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
 
     def eval_one_vs_all(self, feat):
         if self.one_vs_all_matrix[feat] != self.empty_symbol:
-- 
2.43.0


From 82c3e1280f83e2e9d02a40d18cb423aadb0921dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 38/42] fix: DataTransformer took the splits in the order of
 the dictionary instead of the features

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 38696f5..cc8c9d7 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -585,7 +585,8 @@ class DataTransformer:
     def transform(self, X):
         # feat_mapping <- to how many features each feature is mapped
         feat_mapping = []
-        for split in self.splits.values():
+        for feat in range(X.shape[1]):
+            split = self.splits["feat_{}".format(feat)]
             if len(split) == 0:
                 feat_mapping.append(1)
             else:
-- 
2.43.0


From 5a7a8fc560a390e779d674c0c43387fdda704210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 39/42] fix: DataTransformer left nan instead of 0 in the
 unselected columns of an infinite or missing value

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cc8c9d7..bce12bc 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -664,7 +664,7 @@ class DataTransformer:
                     mask[:, pos + ii] = init_col_mask
                     new_columns.append(new_name[:-3])
         self.mask = mask
-        self.new_data = new_data * mask
+        self.new_data = np.where(mask == 1, new_data, np.zeros_like(mask))
         self.new_names = new_columns
         return self.new_data
 
-- 
2.43.0


From b9fed9e7f0de05eaa1c15dfba392b5a267fcc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 40/42] fix: plots name feature k x_k when no names are given,
 as documented and as the regional effects do

---
 effector/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index cea0b20..fa67459 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -98,7 +98,7 @@ def ale_plot(
 
     ax1.set_ylim(y_limits[0], y_limits[1]) if y_limits is not None else None
 
-    x_name = "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+    x_name = "x_%d" % feature if feature_names is None else feature_names[feature]
     ax2.set_xlabel(x_name)
     ax2.set_ylabel("dy/dx")
 
@@ -214,7 +214,7 @@ def plot_pdp_ice(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     if is_derivative:
@@ -282,7 +282,7 @@ def plot_shap(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     ax.set_ylabel("y") if target_name is None else ax.set_ylabel(target_name)
-- 
2.43.0


From 7d991236b8dfc8a92d2e4e7fa211727ca4d0a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 41/42] fix: axis limits of a regional effect come from the
 instances used, not from rows left out by nof_instances

---
 effector/regional_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index d21c811..bdd8732 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -48,7 +48,7 @@ class RegionalEffectBase:
 
         # set axis_limits
         axis_limits = (
-            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
+            helpers.axis_limits_from_data(self.data) if axis_limits is None else axis_limits
         )
         self.axis_limits: np.ndarray = axis_limits
 
-- 
2.43.0


From 24afa4f488066c52658aa9d74058f915909b366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:37 +0000
Subject: [PATCH 42/42] fix: a region that is too small counts as maximally
 heterogeneous whatever the unit of the output is

---
 effector/partitioning.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index bce12bc..6b16563 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -72,6 +72,9 @@ class Regions:
         self.split_found: bool = False
         self.important_splits_selected: bool = False
 
+        # the heterogeneity of a region that cannot be used
+        self.big_m = BIG_M
+
     def search_all_splits(self):
         """
         Iterate over all features of conditioning and choose the best split for each level in a greedy fashion.
@@ -93,6 +96,10 @@ class Regions:
                 else self.heter_func(self.data)
             )
 
+            # a region that cannot be used has to be worse than all others, whatever the unit of the output
+            if heter_init != BIG_M:
+                self.big_m = max(BIG_M, 1e4 * heter_init)
+
             # initialize x_list, x_jac_list, splits
             x_list = [self.data]
             x_jac_list = [self.data_effect] if self.data_effect is not None else None
@@ -148,9 +155,12 @@ class Regions:
         foc_types = self.foc_types
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
-        heter_func = self.heter_func
         data = self.data
 
+        def heter_func(*args):
+            heter = self.heter_func(*args)
+            return self.big_m if heter == BIG_M else heter
+
         # a categorical feature has one position per unique value, which may be more than cat_limit
         cat_limit = max([self.cat_limit] + [len(np.unique(data[:, i])) for i, t in zip(foc, foc_types) if t == "cat"])
 
-- 
2.43.0

