From c1bbc66545a7f10ab38542e67b69e51e61fb63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 01/31] fix: cumulate losses by development period, whatever
 the order or multiplicity of the input records

---
 trikit/triangle.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..683d0a6 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -461,10 +461,16 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        self._validate(data, origin=origin, dev=dev, value=value)
+        origin = "origin" if origin is None else origin
+        dev = "dev" if dev is None else dev
+        value = "value" if value is None else value
+
+        # Combine records sharing the same origin and development period, and
+        # order by development period prior to cumulating.
+        data = data.groupby([origin, dev], as_index=False)[[value]].sum()
+        data = data.sort_values(by=[origin, dev])
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
-- 
2.43.0


From 2c12a2fe9f5cec8c59274a3ca342bed3aece3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 02/31] fix: leave a cell empty when its only records have no
 amount, instead of reading it as zero

---
 trikit/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 683d0a6..9bf2536 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -48,7 +48,7 @@ class _BaseTriangle(pd.DataFrame):
         # data2 = data.copy(deep=True)
         data2 = self._neg_handler(data, dev_, value_)
         data2 = data2[[origin_, dev_, value_]]
-        data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        data2 = data2.groupby([origin_, dev_], as_index=False).sum(min_count=1)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
@@ -468,7 +468,7 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Combine records sharing the same origin and development period, and
         # order by development period prior to cumulating.
-        data = data.groupby([origin, dev], as_index=False)[[value]].sum()
+        data = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
         data = data.sort_values(by=[origin, dev])
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
-- 
2.43.0


From 1dbfb3ab6eab0bab0c50f952444e19c830bf31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 03/31] fix: read tabular cumulative data by development
 period, whatever the record order

---
 trikit/triangle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9bf2536..252e2b6 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1380,10 +1380,11 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            # Differences are taken between successive development periods,
+            # so combine and order records first.
+            df = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
+            df = df[~pd.isnull(df[value])].sort_values(by=[origin, dev])
+            df[value] = df.groupby([origin])[value].diff(periods=1).fillna(df[value])
         else:
             df = data
     else:
-- 
2.43.0


From 5d16bca25f19a3d93861dbce79bea8f83c595e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 04/31] fix: keep amounts which follow a gap in cumulative
 triangle-shaped data

---
 trikit/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 252e2b6..01a09c0 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1365,8 +1365,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
+            # Subtract the closest earlier amount present for the same origin.
+            incrtri = data - data.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
             incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
-- 
2.43.0


From 20053e8bd93ccba229c0ab0cf8875e8fed89bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 05/31] fix: ignore origin, dev and value arguments and axis
 names for triangle-shaped data, as documented

---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 01a09c0..c53a93b 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1358,6 +1358,10 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
+        # Axis names and the origin, dev and value arguments don't apply.
+        data = data.rename_axis(None, axis=0)
+        origin, dev, value = "origin", "dev", "value"
+
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
             incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-- 
2.43.0


From 9db845c9e3a1210c58ad2f027489cd18a5208b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 06/31] fix: support custom origin, dev and value names
 throughout

---
 trikit/estimators/bootstrap.py |  2 +-
 trikit/triangle.py             | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..bb737be 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).set_axis(["origin", "dev", "value"], axis=1).drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index c53a93b..281fe2a 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -210,9 +210,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -347,7 +347,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -432,7 +432,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -893,11 +893,11 @@ class CumTriangle(_BaseCumTriangle):
         """
         incrtri = pd.DataFrame(self).diff(axis=1)
         incrtri.iloc[:, 0] = self.iloc[:, 0]
-        incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-        df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
-        df = df[~np.isnan(df["value"])].astype({"origin": int, "dev": int, "value": float})
-        df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
-        return(IncrTriangle(df, origin="origin", dev="dev", value="value"))
+        incrtri = incrtri.reset_index(drop=False).rename({"index": self.origin}, axis=1)
+        df = pd.melt(incrtri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
+        df = df[~np.isnan(df[self.value])].astype({self.origin: int, self.dev: int, self.value: float})
+        df = df.sort_values(by=[self.origin, self.dev]).reset_index(drop=True)
+        return(IncrTriangle(df, origin=self.origin, dev=self.dev, value=self.value))
 
 
     def plot(self, display="combined", **kwargs):
@@ -971,7 +971,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1055,7 +1055,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From 22981b19dddc59816a99b6daead6b36454656ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 07/31] fix: medial average of no link ratios is NaN, like the
 other averages

---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 281fe2a..bb3084b 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -556,7 +556,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From 64541381e100605c2869859e6b377a575026eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 08/31] fix: volume-weighted averages honor a2aind exclusions

---
 trikit/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index bb3084b..dab32ec 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -831,9 +831,10 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = (final_cell_indx - duration) if \
                             (final_cell_indx - duration) >= 0 else 0
 
-                    # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    # Divide sum of t_ic_2 by t_ic_1 over cells not excluded.
+                    incl = self.a2aind.iloc[first_cell_indx:final_cell_indx, col]
+                    sum_ic_2 = (t_ic_2[first_cell_indx:final_cell_indx] * incl).sum()
+                    sum_ic_1 = (t_ic_1[first_cell_indx:final_cell_indx] * incl).sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
-- 
2.43.0


From bde82af290ef3c8c4b57e3d29590ba5adc84fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 09/31] fix: base_cl no longer appends the tail factor to the
 caller's sel Series

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..18f32db 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,7 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
+                # Append tail factor to a copy of sel.
+                sel = sel.astype(float)
                 increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
                 sel.loc[sel.index.max() + increment] = tail
 
-- 
2.43.0


From 0e5f51f89ebf269259dc08be6e720e8c157b1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 10/31] fix: bootstrap first development period is the
 triangle's own, not the label 1

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index bb737be..bf3f97d 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -597,7 +597,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == self.tri.columns.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From 93ee3d96529eae0711320fbb8b6899d855fb6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 11/31] fix: resample around negative fitted increments with
 the square root of their absolute value

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index bf3f97d..41e2044 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -487,7 +487,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From 5c39b32c0f2f8f1cda9a536f8d372fdf233a97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 12/31] fix: residuals_detail reads the scalar mode returned by
 scipy >= 1.11

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 41e2044..b295fd1 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -943,7 +943,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit", keepdims=False).mode
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -956,7 +956,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit", keepdims=False).mode
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From c52beca07db7e5634c2c446b7a1ce1034c2d9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 13/31] fix: Mack process and total errors follow alpha's
 variance assumption, so that they scale with the amounts

---
 trikit/estimators/mack.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..dd1ea46 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -121,7 +121,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -164,15 +164,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
@@ -334,7 +331,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -351,6 +348,11 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            * 0: Straight average of observed individual link ratios.
+            * 1: Historical Chain Ladder age-to-age factors.
+            * 2: Regression of :math:`C_{k+1}` on :math:`C_{k}` with 0 intercept.
+
         Returns
         -------
         pd.DataFrame
@@ -376,10 +378,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From d0d9034f0a634e204ffd89a33a3491f77213c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 14/31] fix: devp_corr_test no longer draws from (and perturbs)
 numpy's global random state

---
 trikit/estimators/mack.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index dd1ea46..36a4ac6 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -6,7 +6,6 @@ import numpy as np
 import pandas as pd
 from scipy import special
 from scipy.stats import norm, lognorm
-from scipy.optimize import root
 from .base import BaseRangeEstimator, BaseRangeEstimatorResult
 
 
@@ -694,11 +693,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         -------
         tuple
         """
-        def fnorm(x, p):
-            return(norm.cdf(x) - norm.cdf(-x) - p)
-
-        f = functools.partial(fnorm, p=p)
-        z = root(f, np.random.rand()).x.item()
+        z = norm.ppf((1 + p) / 2)
         s = np.sqrt(self._devp_corr_test_var())
         return((-z / s, z / s), self._spearman_corr_total())
 
-- 
2.43.0


From 9dc3e5666d3fd606dbbb9b73b1b80924d084403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 15/31] fix: label the 11th, 12th and 13th percentiles
 correctly

---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 18f32db..e802e4f 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -682,7 +682,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii in ("11", "12", "13") else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From e1284e84ac734c916d831f4af4319ba985679a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 16/31] fix: Mack plot and diagnostics exhibits use the columns
 their data has

---
 trikit/estimators/mack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 36a4ac6..d37e25a 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -901,7 +901,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
@@ -1013,7 +1013,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1032,8 +1032,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From 3f946471e1300ae2ec11ca0eac1982c2d1094818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 17/31] fix: base chain ladder exhibit draws the actual and
 forecast losses

---
 trikit/estimators/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index e802e4f..ff83382 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -524,6 +524,7 @@ class BaseChainLadderResult:
                 markeredgewidth=[.50, .50], linestyle=["-", "-"],
                 linewidth=[.475, .475],
                 )
+            huekwargs.update({kk: [vv, vv] for kk, vv in kwargs.items()})
 
             if hue_kws is not None:
                 # Determine whether the length of each element of hue_kws is 4.
@@ -538,6 +539,8 @@ class BaseChainLadderResult:
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
+
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From 0d6a70789801237286341c22124da06171c76fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 18/31] fix: bootstrap plot computes its two-sided percentile
 bounds

---
 trikit/estimators/base.py      | 8 +++++++-
 trikit/estimators/bootstrap.py | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index ff83382..43a48ab 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -661,7 +661,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
 
 
 
-    def _qtls_formatter(self, q):
+    def _qtls_formatter(self, q, two_sided=False):
         """
         Return array_like of actual and formatted quantiles.
 
@@ -671,12 +671,18 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             Quantile or sequence of quantiles to compute, which must be
             between 0 and 1 inclusive.
 
+        two_sided: bool
+            Whether to return the bounds of the central interval(s) of
+            probability ``q`` instead. Defaults to False.
+
         Returns
         -------
         tuple of list
         """
         qtls = np.asarray([q] if isinstance(q, (float, int)) else q)
         if np.all(np.logical_and(qtls <= 1, qtls >= 0)):
+            if two_sided:
+                qtls = np.append((1 - qtls) / 2., (1 + qtls) / 2.)
             qtls = np.sort(np.unique(qtls))
         else:
             raise ValueError("Values for quantiles must fall between [0, 1].")
diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index b295fd1..c6a80c2 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1068,12 +1068,12 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
 
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
-            dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+            dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).quantile(
+                q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
-            dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+            dftotal_qtl = dftotal.quantile(
+                q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
-- 
2.43.0


From 502ce9e7fafb9cb6f13823b06dffc6eb4ca15f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 19/31] fix: hist no longer adds a column to the result's
 reserve_dist

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index c6a80c2..7407979 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1327,7 +1327,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy(deep=True)
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From 5aa4a978540d68dd0889f3a13aa556a221ac1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 20/31] fix: faceted triangle plot reads tick positions instead
 of parsing formatted labels

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index dab32ec..a072cc8 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1086,9 +1086,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [float(jj) for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From b096448106a2c755f28a061b7f9a57d6b389ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 21/31] fix: Mack diagnostics standardize residuals by their
 standard deviation

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index d37e25a..eca217c 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -570,7 +570,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -592,7 +592,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
-- 
2.43.0


From b64b88354e6226cf111bb3c181bf5f162d184405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 22/31] fix: to_cum carries amounts forward over gaps, as totri
 does

---
 trikit/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index a072cc8..b7e01f3 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -432,7 +432,9 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
+        return(totri(
+            self.to_tbl(), tri_type="cum", origin=self.origin, dev=self.dev, value=self.value
+            ))
 
 
 
-- 
2.43.0


From 1b480153f2692fd048d543efeadb45940d0aaf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 23/31] fix: combine records of a cell before testing its first
 development amount for positivity

---
 trikit/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index b7e01f3..2dece61 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -46,9 +46,9 @@ class _BaseTriangle(pd.DataFrame):
         value_ = "value" if value is None else value
 
         # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]]
         data2 = data2.groupby([origin_, dev_], as_index=False).sum(min_count=1)
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
-- 
2.43.0


From cd3091e12b6b5fdc39131d6ce609f14fea53cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 24/31] fix: lognormal reserve distribution matches reserves
 smaller than one unit of amount too

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index eca217c..0ee46c6 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -183,7 +183,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From 7bc2f983b7368698303dbe757340205ac5f8d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 25/31] fix: triind reflects first development amounts filled
 in by totri

---
 trikit/triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 2dece61..29d4440 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1407,12 +1407,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif tri_type.lower().startswith("c"):
         tri = CumTriangle(data=df, origin=origin, dev=dev, value=value)
 
-        # Replace missing actuals.
+        # Replace missing actuals. First development period amounts are replaced
+        # before triind is evaluated, which is evaluated once.
+        tri.iloc[:, 0] = tri.iloc[:, 0].fillna(1.)
+
         for origin_ in tri.index:
             origin_indx = tri.index.get_loc(origin_)
-            origin_init_val = tri.iat[origin_indx, 0]
-            if np.isnan(origin_init_val):
-                tri.iat[origin_indx, 0] = 1.
 
             for devp_indx, devp_ in enumerate(tri.columns[1:], start=1):
                 triind_val = tri.triind.iat[origin_indx, devp_indx]
-- 
2.43.0


From d5fddadf77c047336b996e671b6731a362a898b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 26/31] fix: labelled factor overrides may come in any label
 order

---
 trikit/estimators/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 43a48ab..ed3b323 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,8 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to a copy of sel.
-                sel = sel.astype(float)
+                # Append tail factor to a copy of sel, in label order.
+                sel = sel.astype(float).sort_index()
                 increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
                 sel.loc[sel.index.max() + increment] = tail
 
-- 
2.43.0


From 7ff31d90b13e632a97b5f596f9353ef28393b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 27/31] fix: last Mack variance is zero, not undefined, when
 the two before it are zero

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0ee46c6..57a4932 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -323,7 +323,7 @@ class MackChainLadder(BaseRangeEstimator):
                 (w[jj] * (C[jj]**alpha) * (F[jj] - ldfs[jj])**2).sum() / (n - indx - 2)
 
         # Calculate development period variance for period n-1.
-        devpvar.iloc[-1] = np.min((
+        devpvar.iloc[-1] = np.nanmin((
             devpvar.iloc[-2]**2 / devpvar.iloc[-3],
             np.min([devpvar.iloc[-2], devpvar.iloc[-3]])
             ))
-- 
2.43.0


From f9c623104c2e1db39287b5650469f2cfa45d03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 28/31] fix: reject an unknown data_format for tabular data too

---
 trikit/triangle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 29d4440..bc0b823 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1380,7 +1380,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
         else:
-            raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
 
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
@@ -1393,8 +1393,10 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
             df = df[~pd.isnull(df[value])].sort_values(by=[origin, dev])
             df[value] = df.groupby([origin])[value].diff(periods=1).fillna(df[value])
-        else:
+        elif data_format.lower().strip().startswith("i"):
             df = data
+        else:
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
-- 
2.43.0


From b84679e703aee424a75eea21884a4d4217e0624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 29/31] fix: exhibits accept losses which are a power of ten,
 at most one, or over ten digits

The y axis ticks were looked up by strict comparison with powers of ten from
1 to 1e9, so that plots with a panel whose largest loss is exactly 1000, is
0.75, or is 3e10 raised ValueError.
---
 trikit/estimators/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index ed3b323..1299817 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -347,8 +347,8 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
+        ref_divs = np.power(10., np.arange(-10, 20))
+        div_index = np.where((x / ref_divs) >= 1)[0].max()
         x_div = ref_divs[div_index]
 
         # Find upper limit for y-axis given origin_max_val.
-- 
2.43.0


From 134f3dd035cf10e50979f74f389aa1bc5c2d7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 30/31] fix: Mack plot labels each panel with the origin it
 draws

Origins without a distribution (a lognormal with no positive mean or no
error) have no panel, which moved every later label and marker to the panel
before it.
---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 57a4932..2e98fe2 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -913,7 +913,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             grid.set_axis_labels("", "")
             grid.map(plt.plot, "x", "y", color=dist_color, linewidth=1.25)
 
-            for origin, ax_ii in zip(self.rvs.index[1:], grid.axes):
+            for origin, ax_ii in zip(grid.col_names, grid.axes):
                 # Determine reserve estimate at mean and specified quantiles.
                 rv_ii = self.rvs[origin]
                 with np.errstate(invalid="ignore"):
-- 
2.43.0


From d6193938a246d20b284357b9c446c03f7d8845e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 31/31] fix: cumulative triangle-shaped data with unordered
 development columns

---
 trikit/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index bc0b823..3a7f5f3 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1373,7 +1373,9 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            # Subtract the closest earlier amount present for the same origin.
+            # Subtract the closest earlier amount present for the same origin,
+            # whatever the order the columns came in.
+            data = data.sort_index(axis=1, key=lambda v: v.astype(int))
             incrtri = data - data.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
             incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
-- 
2.43.0

