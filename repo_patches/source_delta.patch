From 8e93073f86828ab0f43a7a6edd6ed7558f37878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:16 +0000
Subject: [PATCH 01/81] fix: ignore walk-forward periods shifted outside the
 observations

---
 src/skfolio/model_selection/_walk_forward.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..9c38ecc 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -358,10 +358,15 @@ def _split_from_period_without_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        # Shifted dates outside the observations have no observation to map to.
+        date_range = date_range[
+            (date_range >= ts_index[0]) & (date_range <= ts_index[-1])
+        ]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     n = len(idx)
@@ -405,10 +410,15 @@ def _split_from_period_with_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        # Shifted dates outside the observations have no observation to map to.
+        date_range = date_range[
+            (date_range >= ts_index[0]) & (date_range <= ts_index[-1])
+        ]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
-- 
2.43.0


From d250ef4e0d71bcee0b1bf2a1eee33e8ff1dcb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:17 +0000
Subject: [PATCH 02/81] fix: purge the end of the training set when train_size
 is a date offset

---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 9c38ecc..88fefb3 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -438,13 +438,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From 8d8852940d784939a6eecd27cd8702ae1b39c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:17 +0000
Subject: [PATCH 03/81] fix: count the walk-forward splits from the periods
 when freq is given

---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 88fefb3..681615d 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -293,6 +293,8 @@ class WalkForward(sks.BaseCrossValidator):
         """
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X, y))
         X, y = sku.indexable(X, y)
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
-- 
2.43.0


From 475871c9074a39970fd0cc1a7f9838493712584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:18 +0000
Subject: [PATCH 04/81] fix: keep the last rows in the last combinatorial fold
 when folds are small

---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From 71b44889b5c3cb4bad7dd183f7f5bf4a4a5a93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:38 +0000
Subject: [PATCH 05/81] fix: do not select asset columns from the factors in
 nested clusters

---
 src/skfolio/optimization/cluster/_nco.py | 2 +-
 src/skfolio/utils/tools.py               | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..b466d3b 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -356,7 +356,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..85e35b4 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -238,7 +238,7 @@ def safe_split(
         Data to be indexed.
 
     indices : ndarray of int, optional
-        Rows or columns to select from X and y.
+        Rows to select from X and y or columns to select from X.
         The default (`None`) is to select the entire data.
 
     axis : int, default=0
@@ -254,10 +254,11 @@ def safe_split(
         Indexed targets.
     """
     X_subset = safe_indexing(X, indices=indices, axis=axis)
-    if y is not None:
+    if y is not None and axis == 0:
         y_subset = safe_indexing(y, indices=indices, axis=axis)
     else:
-        y_subset = None
+        # The columns of X and y are unrelated
+        y_subset = y
     return X_subset, y_subset
 
 
@@ -595,7 +596,7 @@ def fit_single_estimator(
         Parameters that will be passed to `estimator.fit`.
 
     indices : ndarray of int, optional
-        Rows or columns to select from X and y.
+        Rows to select from X and y or columns to select from X.
         The default (`None`) is to select the entire data.
 
     axis : int, default=0
-- 
2.43.0


From 6d3cf524cd8709c1c6635d14663317e9da9eb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:38 +0000
Subject: [PATCH 06/81] fix: refuse shuffled folds beyond the first one in
 cross_val_predict

---
 src/skfolio/model_selection/_validation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..6035bd9 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -190,13 +190,14 @@ def cross_val_predict(
                     " `shuffle=False`"
                 )
         except AttributeError:
-            # If we cannot find the attribute shuffle, we check if the first folds
-            # are shuffled
-            for fold in splits[0]:
-                if not np.all(np.diff(fold) > 0):
-                    raise ValueError(
-                        "`cross_val_predict` only works with un-shuffled folds"
-                    ) from None
+            # If we cannot find the attribute shuffle, we check if the folds are
+            # shuffled
+            for split in splits:
+                for fold in split:
+                    if not np.all(np.diff(fold) > 0):
+                        raise ValueError(
+                            "`cross_val_predict` only works with un-shuffled folds"
+                        ) from None
 
     # We clone the estimator to make sure that all the folds are independent
     # and that it is pickle-able.
-- 
2.43.0


From e2b5c7c0c72ad42b345969185cb47ddcc5a25130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 07/81] fix: refuse appending a portfolio that overlaps by one
 observation

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..c4a51b1 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -638,7 +638,7 @@ class MultiPeriodPortfolio(BasePortfolio):
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From f387da8c1ae03dd85910ca572572028adbdedfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:46 +0000
Subject: [PATCH 08/81] fix: leave a multi-period portfolio unchanged when
 append is given a wrong type

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index c4a51b1..5a298db 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -635,6 +635,11 @@ class MultiPeriodPortfolio(BasePortfolio):
         portfolio : Portfolio
             The Portfolio to append.
         """
+        if not isinstance(portfolio, BasePortfolio | Portfolio):
+            raise TypeError(
+                "`portfolio` must be of type `Portfolio`, got"
+                f" {type(portfolio).__name__}"
+            )
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-- 
2.43.0


From dbe758648fccc3c1e5b66af4567d2b505125132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:47 +0000
Subject: [PATCH 09/81] fix: do not share the list of portfolios with copies or
 with the caller

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 5a298db..3c4f2d3 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -524,7 +524,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                         )
                     prev_p = p
         self._loaded = False
-        self._portfolios = portfolios
+        self._portfolios = list(portfolios)
         self.returns = np.asarray(returns)
         self.observations = np.asarray(observations)
         self._loaded = True
@@ -649,7 +649,8 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        # New list: the current one may be shared with a copy
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From 852f01f1f6dfd9955a37c6023c7201d0800074f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:03 +0000
Subject: [PATCH 10/81] fix: format infinite measures in portfolio summaries

---
 src/skfolio/utils/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 85e35b4..c4631f9 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -520,7 +520,7 @@ def format_measure(x: float, percent: bool = False) -> str:
     formatted : str
         Formatted string.
     """
-    if np.isnan(x):
+    if not np.isfinite(x):
         return str(x)
     if percent:
         xn = x * 100
-- 
2.43.0


From 66cca404f3fd1580d1f519ee5992d5e38e5950ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:59 +0000
Subject: [PATCH 11/81] fix: compute contributions of portfolios whose weights
 are integers

---
 src/skfolio/portfolio/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index 1530a45..b97dabf 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -866,7 +866,7 @@ def _get_risk(
 ) -> float:
     """Get the Portfolio risk measure when the weight of asset `i` is increased by `h`."""
     assert "weights" not in args
-    weights = weights.copy()
+    weights = weights.astype(float)
     weights[i] += h
     return getattr(Portfolio(weights=weights, **args), measure.value)
 
-- 
2.43.0


From c4911b1ae6564b4e8d76ee1901d213417c558fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:44 +0000
Subject: [PATCH 12/81] fix: allow a fitted MaximumDiversification to be
 pickled

---
 .../optimization/convex/_maximum_diversification.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/optimization/convex/_maximum_diversification.py b/src/skfolio/optimization/convex/_maximum_diversification.py
index ab98cdd..b7a6070 100644
--- a/src/skfolio/optimization/convex/_maximum_diversification.py
+++ b/src/skfolio/optimization/convex/_maximum_diversification.py
@@ -424,11 +424,12 @@ class MaximumDiversification(MeanRisk):
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
-        def func(w, obj):
-            """Weighted volatilities."""
-            covariance = obj.prior_estimator_.prior_model_.covariance
-            return np.sqrt(np.diag(covariance)) @ w
-
-        self.overwrite_expected_return = func
+        self.overwrite_expected_return = _weighted_volatilities
         super().fit(X, y, **fit_params)
         return self
+
+
+def _weighted_volatilities(w, obj):
+    """Weighted volatilities."""
+    covariance = obj.prior_estimator_.prior_model_.covariance
+    return np.sqrt(np.diag(covariance)) @ w
-- 
2.43.0


From 6a6fdf0d6282c959a03e93ac96ea926f7974d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:44 +0000
Subject: [PATCH 13/81] fix: return the estimator from
 LoadingMatrixRegression.fit

---
 src/skfolio/prior/_factor_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 165bf91..28154e7 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -140,6 +140,7 @@ class LoadingMatrixRegression(BaseLoadingMatrix):
                 for i in range(n_assets)
             ]
         )
+        return self
 
 
 class FactorModel(BasePrior):
-- 
2.43.0


From 54c429fd68dca57325616a79af39b0c3c9e23978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:20 +0000
Subject: [PATCH 14/81] fix: start every convex fit with an empty cache of
 models

---
 src/skfolio/optimization/convex/_distributionally_robust.py | 1 +
 src/skfolio/optimization/convex/_mean_risk.py               | 1 +
 src/skfolio/optimization/convex/_risk_budgeting.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_distributionally_robust.py b/src/skfolio/optimization/convex/_distributionally_robust.py
index d173810..e7ea739 100644
--- a/src/skfolio/optimization/convex/_distributionally_robust.py
+++ b/src/skfolio/optimization/convex/_distributionally_robust.py
@@ -337,6 +337,7 @@ class DistributionallyRobustCVaR(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..18ae446 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -772,6 +772,7 @@ class MeanRisk(ConvexOptimization):
         self._validation()
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..01cee70 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -461,6 +461,7 @@ class RiskBudgeting(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
-- 
2.43.0


From 29bedf5b5f11989f0b43fa693bd6bacf438c44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:52 +0000
Subject: [PATCH 15/81] fix: compute the entropic value at risk of short series
 and of series without losses

---
 src/skfolio/measures/_measures.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/skfolio/measures/_measures.py b/src/skfolio/measures/_measures.py
index 43d25e9..cba1c12 100644
--- a/src/skfolio/measures/_measures.py
+++ b/src/skfolio/measures/_measures.py
@@ -386,20 +386,25 @@ def evar(returns: np.ndarray, beta: float = 0.95) -> float:
     value : float
         EVaR.
     """
+    losses = -np.asarray(returns)
+    worst_loss = np.max(losses)
+    # The entropic risk measure is convex in theta and converges to the worst loss when
+    # theta tends to zero, which is the infimum when the worst loss fills the tail.
+    if np.mean(losses == worst_loss) >= 1 - beta:
+        return worst_loss
+    spread = worst_loss - np.min(losses)
 
     def func(x: float) -> float:
-        return entropic_risk_measure(returns=returns, theta=x, beta=beta)
-
-    # The lower bound is chosen to avoid exp overflow
-    lower_bound = np.max(-returns) / 100
-    result = sco.minimize(
-        func,
-        x0=np.array([lower_bound * 2]),
-        method="SLSQP",
-        bounds=[(lower_bound, np.inf)],
-        tol=1e-10,
+        # The losses are shifted by the worst loss to avoid exp overflow
+        theta = spread * np.exp(x)
+        return theta * np.log(
+            np.mean(np.exp((losses - worst_loss) / theta)) / (1 - beta)
+        )
+
+    result = sco.minimize_scalar(
+        func, bounds=(-10, 14), method="bounded", options={"xatol": 1e-8}
     )
-    return result.fun
+    return worst_loss + min(result.fun, 0)
 
 
 def get_cumulative_returns(returns: np.ndarray, compounded: bool = False) -> np.ndarray:
-- 
2.43.0


From 65a00f295bbac5679cbfc793a798758da433fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:19 +0000
Subject: [PATCH 16/81] fix: annualize ratios with the square-root rule when
 the risk-free rate is not zero

---
 src/skfolio/portfolio/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 7ae67dd..5fce719 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -774,11 +774,11 @@ class BasePortfolio:
         elif isinstance(measure, RatioMeasure):
             # ratio
             if measure.is_annualized:
-                mean = self.annualized_mean
+                ratio = getattr(self, str(measure.non_annualized_measure.value))
+                value = ratio * np.sqrt(self.annualized_factor)
             else:
-                mean = self.mean
-            risk = getattr(self, str(measure.linked_risk_measure.value))
-            value = (mean - self.risk_free_rate) / risk
+                risk = getattr(self, str(measure.linked_risk_measure.value))
+                value = (self.mean - self.risk_free_rate) / risk
         else:
             raise ValueError(f"{measure} is not a Measure.")
         return value
-- 
2.43.0


From a4191f54fb1f56efd8a101f354520a7109cd3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:33 +0000
Subject: [PATCH 17/81] fix: return the population from set_portfolio_params

---
 src/skfolio/population/_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..be7b09b 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -109,6 +109,7 @@ class Population(list):
         for portfolio in self:
             for key, value in params.items():
                 setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From 19619e2b358efd1e6c84907b6c64c89eebc1eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:33 +0000
Subject: [PATCH 18/81] fix: accept the assignment of a slice of a population

---
 src/skfolio/population/_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index be7b09b..67d0ed8 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -52,8 +52,11 @@ class Population(list):
             return self.__class__(item)
         return item
 
-    def __setitem__(self, index: int, item: BasePortfolio) -> None:
-        super().__setitem__(index, self._validate_item(item))
+    def __setitem__(self, index: int | slice, item: BasePortfolio) -> None:
+        if isinstance(index, slice):
+            super().__setitem__(index, [self._validate_item(x) for x in item])
+        else:
+            super().__setitem__(index, self._validate_item(item))
 
     def __add__(self, other: BasePortfolio) -> "Population":
         if not isinstance(other, Population):
-- 
2.43.0


From bf478635957feb19097c711ae03139d2ba8f49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:33 +0000
Subject: [PATCH 19/81] fix: validate every item before extending a population
 in place

---
 src/skfolio/population/_population.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 67d0ed8..ed04384 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -65,6 +65,10 @@ class Population(list):
             )
         return self.__class__(super().__add__(other))
 
+    def __iadd__(self, other: "Population") -> "Population":
+        self.extend(other)
+        return self
+
     def insert(self, index, item: BasePortfolio) -> None:
         """Insert portfolio before index."""
         super().insert(index, self._validate_item(item))
@@ -78,7 +82,7 @@ class Population(list):
         if isinstance(other, type(self)):
             super().extend(other)
         else:
-            super().extend(self._validate_item(item) for item in other)
+            super().extend([self._validate_item(item) for item in other])
 
     def set_portfolio_params(self, **params: Any) -> "Population":
         """Set the parameters of all the portfolios.
-- 
2.43.0


From c7a844a0e2a1df41804dc57b6da8f2c515cc1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:33 +0000
Subject: [PATCH 20/81] fix: never give two portfolios the same name when
 removing duplicates

---
 src/skfolio/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index c4631f9..8147338 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -721,8 +721,11 @@ def deduplicate_names(names: npt.ArrayLike) -> list[str]:
     counts = {}
     for i, col in enumerate(names):
         cur_count = counts.get(col, 0)
-        if cur_count > 0:
-            names[i] = f"{col}_{cur_count}"
+        while cur_count > 0:
+            counts[col] = cur_count + 1
+            col = f"{col}_{cur_count}"
+            cur_count = counts.get(col, 0)
+        names[i] = col
         counts[col] = cur_count + 1
     return names
 
-- 
2.43.0


From 05b153d0ffa6c73cc1445e2bfe89c6505cc420c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:44 +0000
Subject: [PATCH 21/81] fix: refuse equations with several comparisons or
 without left side

---
 src/skfolio/utils/equations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..c373486 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -421,6 +421,11 @@ def _string_to_equation(
             break
         sign = 1
         if e in _COMPARISON_OPERATORS:
+            # there must be exactly one comparison with a left and a right side
+            if i == 1 or comparison_sign is not None:
+                raise EquationToMatrixError(
+                    f"{err_msg}: the character '{e}' is wrongly positioned"
+                )
             if e in _INEQUALITY_OPERATORS:
                 is_inequality = True
             else:
-- 
2.43.0


From ec89830d07e6302cf77ee8735c5db26239a39450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:44 +0000
Subject: [PATCH 22/81] fix: refuse equations multiplying a group by something
 else than a number

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index c373486..2ed5b50 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -458,6 +458,10 @@ def _string_to_equation(
             elif e in _MUL_OPERATORS:
                 # next can only a number
                 e = next(iterator, None)
+                if e is None or e in _OPERATORS or is_group(e):
+                    raise EquationToMatrixError(
+                        f"{err_msg}: the character '{e}' is wrongly positioned"
+                    )
                 try:
                     number = float(e)
                 except ValueError:
-- 
2.43.0


From 8816ece46aff9501a340f732f493a5333726a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:44 +0000
Subject: [PATCH 23/81] fix: read numbers in scientific notation in equations

---
 src/skfolio/utils/equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 2ed5b50..59ec902 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -365,7 +365,9 @@ def _split_equation_string(string: str) -> list[str]:
 
     # '==' needs to be before '='
     operators = sorted(_OPERATORS, reverse=True)
-    pattern = "((?:" + "|".join(["\\" + e for e in operators]) + "))"
+    # The sign of the exponent of a number in scientific notation is not an operator
+    number = r"(?:^|(?<=[-+*=]))\s*(?:\d+\.?\d*|\.\d+)[eE][-+]\d+(?=\s*(?:[-+*<>=]|$))"
+    pattern = f"({number}|" + "|".join(["\\" + e for e in operators]) + ")"
     res = [x.strip() for x in re.split(pattern, string)]
     res = [x for x in res if x != ""]
     return res
-- 
2.43.0


From a5627a399293fa90493328ad2b5ec64ebeacdee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:53 +0000
Subject: [PATCH 24/81] fix: accept assets without group in several group
 levels

---
 src/skfolio/utils/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 59ec902..c86f858 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -212,7 +212,8 @@ def _validate_groups(groups: npt.ArrayLike, name: str = "groups") -> np.ndarray:
             f"`{name} must be a 2D array, got {groups.ndim}D array instead."
         )
     n = len(groups)
-    group_sets = [set(groups[i]) for i in range(n)]
+    # assets without group at a given level are not a group
+    group_sets = [set(groups[i]) - {None, ""} for i in range(n)]
     for i in range(n - 1):
         for e in group_sets[i]:
             for j in range(i + 1, n):
-- 
2.43.0


From f38f1938a0fde71fe7f46bbfd346a976f6070cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:53 +0000
Subject: [PATCH 25/81] fix: do not modify the risk budget given by the user

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 01cee70..32ba6a1 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -492,7 +492,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From fe6a35e239914ff3bf6b61b8f9fa666a788e7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:53 +0000
Subject: [PATCH 26/81] fix: report missing weight bounds with cardinality
 constraints

---
 src/skfolio/optimization/convex/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..db430e9 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -823,13 +823,13 @@ class ConvexOptimization(BaseOptimization, ABC):
             )
 
         if is_mip:
-            is_short = np.any(min_weights < 0)
-
             if max_weights is None or min_weights is None:
                 raise ValueError(
                     "'max_weights' and 'min_weights' must be provided with cardinality "
                     "constraint"
                 )
+            is_short = np.any(min_weights < 0)
+
             if np.all(min_weights > 0):
                 raise ValueError(
                     "Cardinality and Threshold constraint can only be applied "
-- 
2.43.0


From a2020a5e7a09dd9b8e9c3f42f4cf94d0b1211cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:34 +0000
Subject: [PATCH 27/81] fix: accept a number as previous weights of a portfolio

---
 src/skfolio/portfolio/_portfolio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index b97dabf..8bdf6e4 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -477,6 +477,8 @@ class Portfolio(BasePortfolio):
 
         if previous_weights is None:
             previous_weights = np.zeros(n_assets)
+        elif np.isscalar(previous_weights):
+            previous_weights = np.full(n_assets, float(previous_weights))
         else:
             previous_weights = input_to_array(
                 items=previous_weights,
-- 
2.43.0


From b68d8d7d5447edee9f032729d0bf489d9d790d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:34 +0000
Subject: [PATCH 28/81] fix: accept costs by asset name in hierarchical
 optimizations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..a323a33 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -12,6 +12,7 @@ from typing import Any
 
 import numpy as np
 import numpy.typing as npt
+import pandas as pd
 import sklearn.utils.metadata_routing as skm
 
 import skfolio.typing as skt
@@ -299,8 +300,12 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
+        returns = prior_model.returns
+        # To keep the asset_names
+        if hasattr(self, "feature_names_in_"):
+            returns = pd.DataFrame(returns, columns=self.feature_names_in_)
         ptf = Portfolio(
-            X=prior_model.returns,
+            X=returns,
             weights=weights,
             transaction_costs=self.transaction_costs,
             management_fees=self.management_fees,
-- 
2.43.0


From 7c857276037d036e0eea57aa04d11742cd647f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:22 +0000
Subject: [PATCH 29/81] fix: refuse an undefined number for all assets like
 undefined values by asset

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 2 ++
 src/skfolio/optimization/convex/_base.py               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index a323a33..e5ab4d7 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -266,6 +266,8 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
         if value is None:
             raise ValueError("Cannot convert None to array")
         if np.isscalar(value):
+            if np.isnan(value):
+                raise ValueError(f"`{name}` is NaN")
             return value * np.ones(n_assets)
         return input_to_array(
             items=value,
diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index db430e9..06ca5ae 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -644,6 +644,8 @@ class ConvexOptimization(BaseOptimization, ABC):
         if value is None:
             return fill_value
         if np.isscalar(value):
+            if np.isnan(value):
+                raise ValueError(f"`{name}` is NaN")
             return float(value)
         return input_to_array(
             items=value,
-- 
2.43.0


From 6ce18af65d35bb8143dc21c9bf3f484f3f31743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:48 +0000
Subject: [PATCH 30/81] fix: apply the tracking error limit when maximizing a
 ratio

The weights are scaled by the homogenization factor during the ratio
optimization. The limit was not, so the returned weights could exceed it.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 18ae446..a800f7d 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -903,7 +903,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From 63c8eca681e8420d07f268757f916e49eb2978ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:37 +0000
Subject: [PATCH 31/81] fix: apply the variance and semi-variance limits when
 maximizing a ratio

The limits were scaled by the homogenization factor although the variance
scales with its square, so the returned weights could exceed them.
---
 src/skfolio/optimization/convex/_mean_risk.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index a800f7d..7600910 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -1003,9 +1003,23 @@ class MeanRisk(ConvexOptimization):
                 risk_i, constraints_i = risk_func(**args)
                 constraints += constraints_i
                 if risk_limit is not None:
+                    limited_risk = risk_i
+                    if isinstance(factor, cp.Variable) and risk_func in [
+                        self._variance_risk,
+                        self._semi_variance_risk,
+                    ]:
+                        # The variance is not 1-homogeneous, so we limit its square
+                        # root instead
+                        if r_m == RiskMeasure.VARIANCE:
+                            risk_func = self._standard_deviation_risk
+                        else:
+                            risk_func = self._semi_deviation_risk
+                        limited_risk, constraints_i = risk_func(**args)
+                        constraints += constraints_i
+                        risk_limit = np.sqrt(risk_limit)
                     parameter = cp.Parameter(nonneg=True)
                     constraints += [
-                        risk_i * self._scale_constraints
+                        limited_risk * self._scale_constraints
                         <= parameter * factor * self._scale_constraints
                     ]
                     parameters_values.append((parameter, risk_limit))
-- 
2.43.0


From 268ece4d11306c046df09909524681d1c242f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:13 +0000
Subject: [PATCH 32/81] fix: support transaction costs with the Gini mean
 difference

The costs made the problem non convex and every such optimization failed.
They shift all returns equally, so the measure does not depend on them.
---
 src/skfolio/optimization/convex/_base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 06ca5ae..64c1568 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2113,10 +2113,6 @@ class ConvexOptimization(BaseOptimization, ABC):
             CVXPY Expression and Constraints the Ulcer Index risk measure.
         """
         ptf_returns = self._cvx_returns(prior_model=prior_model, w=w)
-        ptf_transaction_cost = self._cvx_transaction_cost(
-            prior_model=prior_model, w=w, factor=factor
-        )
-        ptf_management_fee = self._cvx_management_fee(prior_model=prior_model, w=w)
         observation_nb = prior_model.returns.shape[0]
         x = cp.Variable((observation_nb, 1))
         y = cp.Variable((observation_nb, 1))
@@ -2124,11 +2120,11 @@ class ConvexOptimization(BaseOptimization, ABC):
         ones = np.ones((observation_nb, 1))
         risk = 2 * cp.sum(x + y)
         gmd_w = np.array(owa_gmd_weights(observation_nb) / 2).reshape(-1, 1)
+        # Costs and fees shift all the returns equally, which leaves their differences
+        # unchanged, and including the transaction costs would not be DCP
         # noinspection PyTypeChecker
         constraints = [
             ptf_returns * self._scale_constraints
-            - ptf_transaction_cost * self._scale_constraints
-            - ptf_management_fee * self._scale_constraints
             == cp.reshape(z, (observation_nb,), order="F") * self._scale_constraints,
             z @ gmd_w.T <= ones @ x.T + y @ ones.T,
         ]
-- 
2.43.0


From c411893880f77acb6aace4c4946356b820a20e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:07 +0000
Subject: [PATCH 33/81] fix: fail when a ratio optimization ends with a
 non-positive factor

The solver can stop on an infeasible problem with values whose scaling
factor is negative. The weights obtained from them broke the constraints.
---
 src/skfolio/optimization/convex/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 64c1568..e44a753 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1123,7 +1123,9 @@ class ConvexOptimization(BaseOptimization, ABC):
                     warnings.simplefilter("ignore")
                     problem.solve(solver=self.solver, **self._solver_params)
 
-                if w.value is None:
+                # In ratio optimizations, dividing by a non-positive factor would not
+                # give back weights that satisfy the constraints
+                if w.value is None or factor.value <= 0:
                     raise cp.SolverError("No solution found")
 
                 weights = w.value / factor.value
-- 
2.43.0


From 7be5c1bb37bea636abd57cba6724662a6bcae56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:41 +0000
Subject: [PATCH 34/81] fix: optimize the mean absolute deviation around the
 minimum acceptable return

Twice the average shortfall is the mean absolute deviation only around the
mean, so with another target a different risk was optimized and reported.
---
 src/skfolio/optimization/convex/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index e44a753..1966270 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1548,6 +1548,9 @@ class ConvexOptimization(BaseOptimization, ABC):
         ptf_min_acceptable_return = self._cvx_min_acceptable_return(
             prior_model=prior_model, w=w, min_acceptable_return=min_acceptable_return
         )
+        if min_acceptable_return is not None:
+            # Deviations below and above are only equal on average around the mean
+            return cp.norm(ptf_min_acceptable_return, 1) / n_observations, []
         v = cp.Variable(n_observations, nonneg=True)
         risk = 2 * cp.sum(v) / n_observations
         constraints = [
-- 
2.43.0


From 6916f6028c8941b7f2dc24e7f221344e555b8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:05 +0000
Subject: [PATCH 35/81] fix: optimize the first lower partial moment without
 the risk-free rate

The measure is the average shortfall below the minimum acceptable return.
The optimization raised that target by the risk-free rate.
---
 src/skfolio/optimization/convex/_base.py          | 15 +++------------
 .../optimization/convex/_risk_budgeting.py        |  5 +----
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 1966270..28f0c76 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1560,11 +1560,7 @@ class ConvexOptimization(BaseOptimization, ABC):
         return risk, constraints
 
     def _first_lower_partial_moment_risk(
-        self,
-        prior_model: PriorModel,
-        w: cp.Variable,
-        min_acceptable_return: skt.Target,
-        factor: skt.Factor,
+        self, prior_model: PriorModel, w: cp.Variable, min_acceptable_return: skt.Target
     ) -> skt.RiskResult:
         """Expression and Constraints of the First Lower Partial Moment risk measure.
 
@@ -1580,10 +1576,6 @@ class ConvexOptimization(BaseOptimization, ABC):
             The minimum acceptable return used to distinguish "downside" and "upside"
             returns for the computation of lower partial moments.
 
-        factor : cvxpy Variable | cvxpy Constant
-            Additional variable used for the optimization of some objective function
-            like the ratio maximization.
-
         Returns
         -------
         expression : tuple[cvxpy Expression , list[cvxpy Expression]]
@@ -1597,9 +1589,8 @@ class ConvexOptimization(BaseOptimization, ABC):
         v = cp.Variable(n_observations, nonneg=True)
         risk = cp.sum(v) / n_observations
         constraints = [
-            self.risk_free_rate * factor * self._scale_constraints
-            - ptf_min_acceptable_return * self._scale_constraints
-            <= v * self._scale_constraints
+            ptf_min_acceptable_return * self._scale_constraints
+            >= -v * self._scale_constraints
         ]
         return risk, constraints
 
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 32ba6a1..88cfd87 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -537,10 +537,7 @@ class RiskBudgeting(ConvexOptimization):
             elif arg_name == "w":
                 args[arg_name] = w
             elif arg_name == "factor":
-                if self.risk_measure in [RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT]:
-                    args[arg_name] = factor
-                else:
-                    args[arg_name] = cp.Constant(1)
+                args[arg_name] = cp.Constant(1)
             else:
                 args[arg_name] = getattr(self, arg_name)
         risk, constraints_i = risk_func(**args)
-- 
2.43.0


From 2b1e480708cb4c834decbddeaabbd01d191ef1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:38 +0000
Subject: [PATCH 36/81] fix: leave the given view confidences unchanged when
 fitting

Zero confidences were replaced in place in the caller's array.
---
 src/skfolio/prior/_black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..150b090 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -238,7 +238,7 @@ class BlackLitterman(BasePrior):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
                 )
-            view_confidences[view_confidences == 0] = 1e-16
+            view_confidences = np.where(view_confidences == 0, 1e-16, view_confidences)
             alphas = 1 / view_confidences - 1
             omega = np.diag(
                 np.diag(
-- 
2.43.0


From d217509259988a09bee625b4ca7bad6f37571947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:38 +0000
Subject: [PATCH 37/81] fix: leave the given implied volatilities unchanged
 when fitting

They were de-annualized in place, so a second fit on the same array
used values divided twice.
---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From 0f3565e9fa1586e0eba371a0a2b3deb784fed8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:38 +0000
Subject: [PATCH 38/81] fix: refuse negative implied volatilities

The check was run on the shape of the array instead of its values.
---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 7581259..f09a482 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -452,6 +452,6 @@ def check_implied_vol(implied_vol: npt.ArrayLike, X: npt.ArrayLike) -> np.ndarra
                 f"expected {(n_observations, n_assets)}"
             )
 
-    skv.check_non_negative((n_observations, n_assets), "`implied_vol`")
+    skv.check_non_negative(implied_vol, "`implied_vol`")
     # noinspection PyTypeChecker
     return implied_vol
-- 
2.43.0


From df93591acbb6cfeed35c44cf5cc7f8122136e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:38 +0000
Subject: [PATCH 39/81] fix: leave the fitted moments unchanged when scaling
 them to the horizon

The fitted estimators reported moments scaled in place.
---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From 6c405a14cfa99e0cef65e9fdd0af6df6d3bdd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:56 +0000
Subject: [PATCH 40/81] fix: draw SyntheticData noise from the distribution's
 random state

---
 src/skfolio/prior/_synthetic_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..8daa0bb 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -9,6 +9,7 @@ import inspect
 import numpy as np
 import numpy.typing as npt
 import sklearn.base as skb
+import sklearn.utils as sku
 import sklearn.utils.metadata_routing as skm
 import sklearn.utils.validation as skv
 
@@ -194,7 +195,11 @@ class SyntheticData(BasePrior):
         # constant. To avoid null variance, we add a small white noise.
         constant_returns = np.var(synthetic_data, axis=0) < 1e-14
         if np.any(constant_returns):
-            noise = 1e-6 * np.random.randn(len(synthetic_data), 1)
+            # Drawn from the estimator's random state so that seeded fits are reproducible
+            rng = sku.check_random_state(
+                getattr(self.distribution_estimator_, "random_state", None)
+            )
+            noise = 1e-6 * rng.standard_normal(size=(len(synthetic_data), 1))
             synthetic_data[:, constant_returns] += noise
 
         # Fit empirical posterior estimator
-- 
2.43.0


From c2fbe0a7fd5fa5be24284745122e2d1cbba5fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:56 +0000
Subject: [PATCH 41/81] fix: route SyntheticData fit params to the distribution
 estimator

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 8daa0bb..3dcedd0 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -137,7 +137,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From fdec621ebeb88bef462ffb59e8b1ad9752f9b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:04 +0000
Subject: [PATCH 42/81] fix: keep the asset names when nested clusters predict
 without cross-validation

---
 src/skfolio/optimization/cluster/_nco.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index b466d3b..3d4bb1c 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -27,7 +27,7 @@ from skfolio.measures import RatioMeasure
 from skfolio.model_selection import BaseCombinatorialCV, cross_val_predict
 from skfolio.optimization._base import BaseOptimization
 from skfolio.optimization.convex import MeanRisk
-from skfolio.utils.tools import check_estimator, fit_single_estimator
+from skfolio.utils.tools import check_estimator, fit_single_estimator, safe_indexing
 
 
 class NestedClustersOptimization(BaseOptimization):
@@ -355,6 +355,7 @@ class NestedClustersOptimization(BaseOptimization):
 
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
+        X_with_names = X
         if y is not None:
             X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
@@ -370,7 +371,9 @@ class NestedClustersOptimization(BaseOptimization):
             else:
                 if cv_predictions is None:
                     fitted_inner_estimator = next(fitted_inner_estimators)
-                    pred = fitted_inner_estimator.predict(X[test_indices, cluster_ids])
+                    pred = fitted_inner_estimator.predict(
+                        safe_indexing(X_with_names, indices=cluster_ids, axis=1)
+                    )
                 else:
                     pred = next(cv_predictions)
                     if isinstance(self.cv, BaseCombinatorialCV):
-- 
2.43.0


From 5fff2f3e26953d710983ce02c32b100da110567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:47 +0000
Subject: [PATCH 43/81] fix: support clusters without weight in hierarchical
 risk parity

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..0433b7a 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,9 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    if weights[left_cluster[0]] == 0:
+        # Nothing to split, hence the bounds cannot bind
+        return alpha
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From ac1c61ee66f92a9b44acfa6a945e82602494f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:48 +0000
Subject: [PATCH 44/81] fix: refuse minimum weights summing to more than one in
 hierarchical optimizations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index e5ab4d7..a655c42 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -367,6 +367,11 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            # Tolerance on the rounding error of the sum
+            if np.sum(min_weights) > 1 + 1e-10:
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From 6126f90aaf9d6a35e0d7b47c7c20393a69bd0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:48 +0000
Subject: [PATCH 45/81] fix: accept maximum weights summing to one up to
 rounding in hierarchical optimizations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index a655c42..fef5675 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -384,7 +384,8 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(max_weights > 1):
                 raise ValueError("`max_weights` must be less than or equal to 1.0")
-            if np.sum(max_weights) < 1:
+            # Tolerance on the rounding error of the sum
+            if np.sum(max_weights) < 1 - 1e-10:
                 raise ValueError(
                     "The sum of `max_weights` must be greater than or equal to 1.0"
                 )
-- 
2.43.0


From 0f24b402d2ef71fdd047d7b4935a302903830dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:47 +0000
Subject: [PATCH 46/81] fix: support two assets when estimating the number of
 clusters

---
 src/skfolio/utils/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/utils/stats.py b/src/skfolio/utils/stats.py
index d2a405b..807f16b 100644
--- a/src/skfolio/utils/stats.py
+++ b/src/skfolio/utils/stats.py
@@ -472,6 +472,9 @@ def compute_optimal_n_clusters(distance: np.ndarray, linkage_matrix: np.ndarray)
     """
     cut_tree = sch.cut_tree(linkage_matrix)
     n = cut_tree.shape[1]
+    if n < 3:
+        # The two-order difference is not defined
+        return n
     max_clusters = min(n, max(8, round(np.sqrt(n))))
     dispersion = []
     for k in range(max_clusters):
-- 
2.43.0


From 289d84dd02dfa742ca647aea431ea13a0d19c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:40 +0000
Subject: [PATCH 47/81] fix: support a single asset in the empirical covariance

---
 src/skfolio/moments/covariance/_empirical_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_empirical_covariance.py b/src/skfolio/moments/covariance/_empirical_covariance.py
index a74d6eb..2272d3e 100644
--- a/src/skfolio/moments/covariance/_empirical_covariance.py
+++ b/src/skfolio/moments/covariance/_empirical_covariance.py
@@ -96,6 +96,7 @@ class EmpiricalCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         if self.window_size is not None:
             X = X[-int(self.window_size) :]
-        covariance = np.cov(X.T, ddof=self.ddof)
+        # With a single asset, np.cov returns a scalar
+        covariance = np.atleast_2d(np.cov(X.T, ddof=self.ddof))
         self._set_covariance(covariance)
         return self
-- 
2.43.0


From 171557037a082b9e2f64435fb59020f7f5ffef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:37 +0000
Subject: [PATCH 48/81] fix: use at least two bins in the mutual information of
 short series

---
 src/skfolio/distance/_distance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distance/_distance.py b/src/skfolio/distance/_distance.py
index 2be51f2..7bf0410 100644
--- a/src/skfolio/distance/_distance.py
+++ b/src/skfolio/distance/_distance.py
@@ -513,7 +513,8 @@ class MutualInformation(BaseDistance):
                     n_bins_func = n_bins_knuth
                 case _:
                     raise ValueError(f"n_bins_method {self.n_bins_method} is not valid")
-            n_bins_list = [n_bins_func(x=X[:, i]) for i in range(n_assets)]
+            # With a single bin, the entropies are null and the codependence undefined
+            n_bins_list = [max(2, n_bins_func(x=X[:, i])) for i in range(n_assets)]
         else:
             n_bins_list = [self.n_bins] * n_assets
 
-- 
2.43.0


From bd5a04f313f00baabfff591ac078af3485585376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:23 +0000
Subject: [PATCH 49/81] fix: keep the distance correlation of independent
 assets defined

---
 src/skfolio/distance/_distance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distance/_distance.py b/src/skfolio/distance/_distance.py
index 7bf0410..f9e9a2d 100644
--- a/src/skfolio/distance/_distance.py
+++ b/src/skfolio/distance/_distance.py
@@ -389,7 +389,8 @@ class DistanceCorrelation(BaseDistance):
         y = scd.squareform(scd.pdist(y.reshape(-1, 1)))
         x = x - x.mean(axis=0)[np.newaxis, :] - x.mean(axis=1)[:, np.newaxis] + x.mean()
         y = y - y.mean(axis=0)[np.newaxis, :] - y.mean(axis=1)[:, np.newaxis] + y.mean()
-        value = np.sqrt((x * y).sum()) / np.sqrt(
+        # The distance covariance is non-negative up to the rounding error
+        value = np.sqrt(max(0.0, (x * y).sum())) / np.sqrt(
             np.sqrt((x**2).sum()) * np.sqrt((y**2).sum())
         )
         return value
-- 
2.43.0


From 4c8c133010acb00047a8424934dbebfd697d08e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:12 +0000
Subject: [PATCH 50/81] fix: compare eigenvalue densities on the same grid in
 covariance denoising

The Marcenko-Pastur density was evaluated on eigenvalues while the kernel
density was evaluated on density values, and the two were subtracted with
shapes (1000, 1) and (1000,), so every point was compared to every other.
---
 src/skfolio/moments/covariance/_denoise_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 85ac854..7ca42a7 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -153,7 +153,7 @@ class DenoiseCovariance(BaseCovariance):
                 x_var * (1 - (1.0 / q) ** 0.5) ** 2,
                 x_var * (1 + (1.0 / q) ** 0.5) ** 2,
             )
-            e_val_lin = np.linspace(e_min, e_max, 1000)
+            e_val_lin = np.linspace(e_min, e_max, 1000).reshape(-1)
             pdf_0 = (
                 q
                 / (2 * np.pi * x_var * e_val_lin)
@@ -163,7 +163,7 @@ class DenoiseCovariance(BaseCovariance):
                 e_val.reshape(-1, 1)
             )
             # noinspection PyUnresolvedReferences
-            pdf_1 = np.exp(kde.score_samples(pdf_0.reshape(-1, 1)))
+            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
             return np.sum((pdf_1 - pdf_0) ** 2)
 
         # noinspection PyTypeChecker
-- 
2.43.0


From 8cf90033f521540dec6ecf79385d928e82e8d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:01 +0000
Subject: [PATCH 51/81] fix: keep James-Stein expected returns real when
 eigenvalues are nearly equal

---
 src/skfolio/moments/expected_returns/_shrunk_mu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/expected_returns/_shrunk_mu.py b/src/skfolio/moments/expected_returns/_shrunk_mu.py
index be1d103..7312517 100644
--- a/src/skfolio/moments/expected_returns/_shrunk_mu.py
+++ b/src/skfolio/moments/expected_returns/_shrunk_mu.py
@@ -209,7 +209,7 @@ class ShrunkMu(BaseMu):
         # Calculate Estimators
         match self.method:
             case ShrunkMuMethods.JAMES_STEIN:
-                eigenvalues = np.linalg.eigvals(covariance)
+                eigenvalues = np.linalg.eigvalsh(covariance)
                 self.beta_ = (
                     (np.sum(eigenvalues) - 2 * np.max(eigenvalues))
                     / np.sum((sample_mu - self.mu_target_) ** 2)
-- 
2.43.0


From 88f191ed62ed8807f0819c8f8abf064e31dd6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 52/81] fix: honour absolute and accept a single asset in
 DropCorrelated

---
 src/skfolio/pre_selection/_drop_correlated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..9ba6ad6 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -79,7 +79,9 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
             raise ValueError("`threshold` must be between -1 and 1")
 
         n_assets = X.shape[1]
-        corr = np.corrcoef(X.T)
+        corr = np.atleast_2d(np.corrcoef(X.T))
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From f0d6f558a3f291537785b8ee2ce2d9a86ca421ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 53/81] fix: stop SelectNonDominated once the minimum number of
 assets is reached

---
 src/skfolio/pre_selection/_select_non_dominated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_select_non_dominated.py b/src/skfolio/pre_selection/_select_non_dominated.py
index 59b8ec8..1c8f772 100644
--- a/src/skfolio/pre_selection/_select_non_dominated.py
+++ b/src/skfolio/pre_selection/_select_non_dominated.py
@@ -147,7 +147,7 @@ class SelectNonDominated(skf.SelectorMixin, skb.BaseEstimator):
         while i < len(fronts):
             if (
                 self.min_n_assets is not None
-                and len(new_assets_idx) > self.min_n_assets
+                and len(new_assets_idx) >= self.min_n_assets
             ):
                 break
             for idx in fronts[i]:
-- 
2.43.0


From ac5757a3e51f798de8f59b90fa56e2bba779c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 54/81] fix: keep assets without expiration when the index has
 a time zone

---
 src/skfolio/pre_selection/_select_non_expiring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_select_non_expiring.py b/src/skfolio/pre_selection/_select_non_expiring.py
index c61cd8c..51d4401 100644
--- a/src/skfolio/pre_selection/_select_non_expiring.py
+++ b/src/skfolio/pre_selection/_select_non_expiring.py
@@ -133,7 +133,8 @@ class SelectNonExpiring(skf.SelectorMixin, skb.BaseEstimator):
         cutoff_date = end_date + self.expiration_lookahead
         self.to_keep_ = np.array(
             [
-                self.expiration_dates.get(asset, pd.Timestamp.max) > cutoff_date
+                asset not in self.expiration_dates
+                or self.expiration_dates[asset] > cutoff_date
                 for asset in X.columns
             ]
         )
-- 
2.43.0


From 968ad378d25a12807cc6845f46623dc1719757b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:16 +0000
Subject: [PATCH 55/81] fix: ignore missing factor prices in nan_threshold

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..d00caec 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df[X.columns].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From ae7592ce6d504b2f9fb8fe73dff708b9eff83da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:18 +0000
Subject: [PATCH 56/81] fix: drop only leading observations when prices are not
 filled

---
 src/skfolio/preprocessing/_returns.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index d00caec..025aa5a 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -113,11 +113,13 @@ def prices_to_returns(
     # Forward fill missing values
     if fill_nan:
         df.ffill(inplace=True)
-    # Drop rows according to drop_inceptions_nan
-    # noinspection PyTypeChecker
-    df.dropna(how="any" if drop_inceptions_nan else "all", inplace=True)
+    # Drop rows before the first price of the last asset
+    if drop_inceptions_nan:
+        df = df[df.ffill().notna().all(axis=1)]
+    # Drop row if all its values are missing
+    df = df.dropna(how="all")
     # Drop column if all its values are missing
-    df.dropna(axis=1, how="all", inplace=True)
+    df = df.dropna(axis=1, how="all")
 
     # returns
     all_returns = df.pct_change(fill_method=None).iloc[1:]
-- 
2.43.0


From d55f0e5c89666fef92fd6722da1d2a99c51b8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:32 +0000
Subject: [PATCH 57/81] fix: accept factors when scoring with make_scorer

---
 src/skfolio/metrics/_scorer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/metrics/_scorer.py b/src/skfolio/metrics/_scorer.py
index 202a4d5..816ef02 100644
--- a/src/skfolio/metrics/_scorer.py
+++ b/src/skfolio/metrics/_scorer.py
@@ -34,7 +34,9 @@ class _PortfolioScorer:
             f"{kwargs_string})"
         )
 
-    def __call__(self, estimator: BaseOptimization, X: npt.ArrayLike) -> float:
+    def __call__(
+        self, estimator: BaseOptimization, X: npt.ArrayLike, y=None
+    ) -> float:
         """Compute the score of the estimator prediction on X.
 
         Parameters
@@ -45,6 +47,9 @@ class _PortfolioScorer:
         X : array-like of shape (n_observations, n_assets)
             Test data that will be fed to estimator.predict.
 
+        y : Ignored
+            Not used, present for API consistency by convention.
+
         Returns
         -------
         score : float
-- 
2.43.0


From 0843c100c77ac40269d91140dec21a99941d58f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:04 +0000
Subject: [PATCH 58/81] fix: keep the sign of ratios whose risk is a negative
 zero

---
 src/skfolio/portfolio/_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 5fce719..3ef9589 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -778,7 +778,8 @@ class BasePortfolio:
                 value = ratio * np.sqrt(self.annualized_factor)
             else:
                 risk = getattr(self, str(measure.linked_risk_measure.value))
-                value = (self.mean - self.risk_free_rate) / risk
+                # A null risk can be a negative zero, which would flip the ratio's sign
+                value = (self.mean - self.risk_free_rate) / (risk + 0.0)
         else:
             raise ValueError(f"{measure} is not a Measure.")
         return value
@@ -871,8 +872,8 @@ class BasePortfolio:
                 perf_func = getattr(mt, str(perf_measure.value))
 
                 def func(returns):
-                    return (perf_func(returns) - self.risk_free_rate) / meta_risk_func(
-                        returns
+                    return (perf_func(returns) - self.risk_free_rate) / (
+                        meta_risk_func(returns) + 0.0
                     )
 
             else:
-- 
2.43.0


From 18f6c550573ad07a187b82471a3024cae2fc7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:57 +0000
Subject: [PATCH 59/81] fix: avoid overflow of the Clayton copula near the
 origin

---
 src/skfolio/distribution/copula/_clayton.py | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/skfolio/distribution/copula/_clayton.py b/src/skfolio/distribution/copula/_clayton.py
index 7eed65d..3e2ce09 100644
--- a/src/skfolio/distribution/copula/_clayton.py
+++ b/src/skfolio/distribution/copula/_clayton.py
@@ -440,10 +440,14 @@ def _base_sample_scores(X: np.ndarray, theta: float) -> np.ndarray:
 
     x, y = np.log(X).T
 
+    # log(u ** -theta + v ** -theta - 1), factoring out the largest term to avoid
+    # overflow near the origin
+    z_max = -theta * np.minimum(x, y)
+    z_min = -theta * np.maximum(x, y)
+    log_sum = z_max + np.log1p(np.exp(z_min - z_max) - np.exp(-z_max))
+
     log_density = (
-        np.log1p(theta)
-        - (2.0 + 1.0 / theta) * np.log1p(np.expm1(-theta * x) + np.expm1(-theta * y))
-        - (1.0 + theta) * (x + y)
+        np.log1p(theta) - (2.0 + 1.0 / theta) * log_sum - (1.0 + theta) * (x + y)
     )
     return log_density
 
@@ -492,9 +496,11 @@ def _base_partial_derivative(
          The computed h-function values.
     """
     X = _apply_margin_swap(X, first_margin=first_margin)
-    x = np.power(X[:, 0], -theta)
-    y = np.power(X[:, 1], theta)
-    p = np.power(1.0 + y * (x - 1.0), -(1.0 + 1.0 / theta))
+    u, v = X.T
+    # Using (v / u) ** theta to avoid overflow near the origin
+    p = np.power(
+        1.0 + np.power(v / u, theta) - np.power(v, theta), -(1.0 + 1.0 / theta)
+    )
     return p
 
 
@@ -533,7 +539,8 @@ def _base_inverse_partial_derivative(
          A 1D-array where each element is the solution u ∈ [0,1] such that h(u|v)=p.
     """
     X = _apply_margin_swap(X, first_margin=first_margin)
-    x = np.power(X[:, 0], -theta / (theta + 1.0))
-    y = np.power(X[:, 1], -theta)
-    u = np.power(1.0 + y * (x - 1.0), -1.0 / theta)
+    p, v = X.T
+    x = np.power(p, -theta / (theta + 1.0))
+    # Factoring out v to avoid overflow near the origin
+    u = v * np.power(np.power(v, theta) + x - 1.0, -1.0 / theta)
     return u
-- 
2.43.0


From ece9fe7e62bfa80177f54c1e7bf09501b8d1d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:57 +0000
Subject: [PATCH 60/81] fix: accept the independent copula as a selection
 candidate

---
 src/skfolio/distribution/copula/_selection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_selection.py b/src/skfolio/distribution/copula/_selection.py
index 19785b7..54103cf 100644
--- a/src/skfolio/distribution/copula/_selection.py
+++ b/src/skfolio/distribution/copula/_selection.py
@@ -94,7 +94,11 @@ def select_bivariate_copula(
                 "The candidate copula must inherit from `BaseBivariateCopula`"
             )
         copula = sk.clone(copula)
-        if copula.itau and copula.kendall_tau is None:
+        if (
+            not isinstance(copula, IndependentCopula)
+            and copula.itau
+            and copula.kendall_tau is None
+        ):
             # Faster computation by reusing kendall tau if itau
             copula.kendall_tau = kendall_tau
         copula.fit(X)
-- 
2.43.0


From 845bb1b170d6b864e6fcb5d503f9a32acb9c7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:34 +0000
Subject: [PATCH 61/81] fix: avoid underflow of the Gumbel conditional
 distribution near one

---
 src/skfolio/distribution/copula/_gumbel.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/copula/_gumbel.py b/src/skfolio/distribution/copula/_gumbel.py
index 1fb167b..2a7e9c7 100644
--- a/src/skfolio/distribution/copula/_gumbel.py
+++ b/src/skfolio/distribution/copula/_gumbel.py
@@ -497,13 +497,10 @@ def _base_partial_derivative(
          The computed h-function values.
     """
     X = _apply_margin_swap(X, first_margin=first_margin)
-    _, v = X.T
     x, y = -np.log(X).T
-    p = (
-        np.exp(-np.power(np.power(x, theta) + np.power(y, theta), 1.0 / theta))
-        * np.power(np.power(x / y, theta) + 1.0, 1.0 / theta - 1.0)
-        / v
-    )
+    # Factoring out y to avoid underflow when u and v are close to 1
+    z = np.power(x / y, theta) + 1.0
+    p = np.exp(y * (1.0 - np.power(z, 1.0 / theta))) * np.power(z, 1.0 / theta - 1.0)
     return p
 
 
-- 
2.43.0


From d7a9fc4b83a497beb291423eaef0edaf75f1408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:35 +0000
Subject: [PATCH 62/81] fix: sample vine edges on their own margin for rotated
 copulas

---
 .../distribution/multivariate/_vine_copula.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..e1ae057 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1203,9 +1203,9 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge, x, is_count
                 )
             else:
-                x = np.stack([node.v, edge.node1.pseudo_values]).T
+                x = np.stack([edge.node1.pseudo_values, node.v]).T
                 edge.node2.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=True
                 )
         else:
             is_left1, is_left2 = edge.node1.ref.shared_node_is_left(edge.node2.ref)
@@ -1218,8 +1218,8 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge.node1.u = u
                 queue.appendleft((edge.node1, not is_left1))
             else:
-                x = np.stack([node.v, edge.node1.v if is_left1 else edge.node1.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                x = np.stack([edge.node1.v if is_left1 else edge.node1.u, node.v]).T
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=True)
                 if is_left2:
                     edge.node2.v = u
                 else:
@@ -1228,12 +1228,12 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
 
 
 def _inverse_partial_derivative(
-    edge: Edge, X: np.ndarray, is_count: bool
+    edge: Edge, X: np.ndarray, is_count: bool, first_margin: bool = False
 ) -> np.ndarray:
     """Inverse partial derivative of an Edge copula."""
     if is_count:
         return np.array([np.nan])
-    return edge.copula.inverse_partial_derivative(X)
+    return edge.copula.inverse_partial_derivative(X, first_margin=first_margin)
 
 
 def _kde_trace(
-- 
2.43.0


From e9fc858d20f996103d441463109685bdf5d91791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:46 +0000
Subject: [PATCH 63/81] fix: accept open conditioning bounds when marginals are
 not fitted

---
 src/skfolio/distribution/multivariate/_vine_copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index e1ae057..2873f19 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -802,7 +802,7 @@ class VineCopula(BaseMultivariateDist):
                     u_min = 0.0 if np.isneginf(min_value) else dist.cdf(min_value)
                     u_max = 1.0 if np.isposinf(max_value) else dist.cdf(max_value)
                 else:
-                    u_min, u_max = min_value, max_value
+                    u_min, u_max = max(min_value, 0.0), min(max_value, 1.0)
 
                 # Sample uniformly in the transformed interval.
                 samples = rng.uniform(low=u_min, high=u_max, size=n_samples)
-- 
2.43.0


From 780a0ec0725a337c2312c4b21af7e2f9d51b166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:54 +0000
Subject: [PATCH 64/81] fix: keep conditional copula probabilities within the
 unit interval

---
 src/skfolio/distribution/copula/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_utils.py b/src/skfolio/distribution/copula/_utils.py
index aadace4..79e1032 100644
--- a/src/skfolio/distribution/copula/_utils.py
+++ b/src/skfolio/distribution/copula/_utils.py
@@ -506,4 +506,5 @@ def _apply_rotation_partial_derivatives(
                 z = func(X=rotated_X, first_margin=not first_margin, **kwargs)
         case _:
             raise ValueError(f"Unsupported rotation: {rotation}")
-    return z
+    # Removing rounding errors outside [0, 1]
+    return np.clip(z, 0.0, 1.0)
-- 
2.43.0


From f1b22e1334f7cb9e58a59758517bebd1f67a17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:13 +0000
Subject: [PATCH 65/81] fix: do not leave a truncated dataset in the cache when
 interrupted

---
 src/skfolio/datasets/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index e39b591..248827b 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -160,7 +160,11 @@ def download_dataset(
     archive_path = os.path.join(data_home, os.path.basename(url))
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
-    joblib.dump(df, filepath, compress=6)
+    # Moving the file into place only once complete so that an interrupted download
+    # does not leave a truncated file
+    temp_path = f"{filepath}.tmp"
+    joblib.dump(df, temp_path, compress=6)
+    os.replace(temp_path, filepath)
     os.remove(archive_path)
     return df
 
-- 
2.43.0


From 89ad797252b94bf9b8d9907d4a34b1625eb4efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:09 +0000
Subject: [PATCH 66/81] fix: refuse lists of targets with different lengths

---
 src/skfolio/optimization/convex/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 28f0c76..0a270fd 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1097,7 +1097,7 @@ class ConvexOptimization(BaseOptimization, ABC):
             # If the parameter value is a list, each element is the parameter value of
             # a distinct optimization. Therefore, each list must have same length.
             sizes = [len(v) for p, v in parameters_values if not np.isscalar(v)]
-            if not np.all(sizes):
+            if not np.all(sizes) or len(set(sizes)) > 1:
                 raise ValueError(
                     "All list elements from `parameters_values` should have same length"
                 )
-- 
2.43.0


From d8e9e3a705a30fe6908a5d50d1601edc8640f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:09 +0000
Subject: [PATCH 67/81] fix: pass with a warning when a single optimization
 fails and raise_on_failure is False

---
 src/skfolio/optimization/convex/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 0a270fd..6f5d9c4 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1174,12 +1174,16 @@ class ConvexOptimization(BaseOptimization, ABC):
                 stacklevel=2,
             )
 
-        if n_optimizations == 1:
+        if n_optimizations > 1:
+            self.weights_ = np.array(all_weights, dtype=float).reshape(-1, w.size)
+            self.problem_values_ = all_problem_values
+        elif len(all_weights) == 1:
             self.weights_ = all_weights[0]
             self.problem_values_ = all_problem_values[0]
         else:
-            self.weights_ = np.array(all_weights, dtype=float)
-            self.problem_values_ = all_problem_values
+            # The optimization failed and `raise_on_failure` is False
+            self.weights_ = np.full(w.size, np.nan)
+            self.problem_values_ = {}
 
         if self.save_problem:
             self.problem_ = problem
-- 
2.43.0


From 8a9329966bcf2d87083b741a55d015471021394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:09 +0000
Subject: [PATCH 68/81] fix: keep efficient frontier targets below the maximum
 return

---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 7600910..0df7a1a 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -944,7 +944,7 @@ class MeanRisk(ConvexOptimization):
                     " expected returns"
                 )
             targets = np.linspace(
-                max(min_return, 1e-10) * 1.01,
+                min(max(min_return, 1e-10) * 1.01, max_return),
                 max_return,
                 num=self.efficient_frontier_size,
             )
-- 
2.43.0


From e5fc4d6a3f95959877d5f6e69c0d8bb5697b12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:07 +0000
Subject: [PATCH 69/81] fix: scale transaction costs with the weights in risk
 budgeting

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 88cfd87..ec6d805 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -537,7 +537,7 @@ class RiskBudgeting(ConvexOptimization):
             elif arg_name == "w":
                 args[arg_name] = w
             elif arg_name == "factor":
-                args[arg_name] = cp.Constant(1)
+                args[arg_name] = factor
             else:
                 args[arg_name] = getattr(self, arg_name)
         risk, constraints_i = risk_func(**args)
-- 
2.43.0


From 3727342e64429038c631aca6ba1e93f09e0d3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:48 +0000
Subject: [PATCH 70/81] fix: do not alter the global random state when
 bootstrapping

---
 src/skfolio/utils/bootstrap.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/utils/bootstrap.py b/src/skfolio/utils/bootstrap.py
index d8a6d75..cc31c7e 100644
--- a/src/skfolio/utils/bootstrap.py
+++ b/src/skfolio/utils/bootstrap.py
@@ -96,7 +96,7 @@ def stationary_bootstrap(
            The sample returns of shape (reps, nb observations, nb assets)
 
     """
-    np.random.seed(seed=seed)
+    rng = np.random.RandomState(seed=seed)
     n_observations, n_assets = returns.shape
     x = np.vstack((returns, returns))
     # Loop over reps bootstraps
@@ -105,10 +105,8 @@ def stationary_bootstrap(
             [optimal_block_size(returns[:, i]) for i in range(n_assets)]
         )
 
-    indices = np.random.randint(
-        n_observations, size=(n_bootstrap_samples, n_observations)
-    )
-    cond = np.random.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
+    indices = rng.randint(n_observations, size=(n_bootstrap_samples, n_observations))
+    cond = rng.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
     # TODO: don't use loop
     for i in range(n_bootstrap_samples):
         for j in range(1, n_observations):
-- 
2.43.0


From 5eabcd5313c0a7ada29e4b10bcb7a20ae733efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:21 +0000
Subject: [PATCH 71/81] fix: do not alter the splitter given to nested and
 stacked optimizations

---
 src/skfolio/optimization/cluster/_nco.py       | 2 +-
 src/skfolio/optimization/ensemble/_stacking.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 3d4bb1c..7d22bb7 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -326,7 +326,7 @@ class NestedClustersOptimization(BaseOptimization):
             cv_predictions = None
             test_indices = slice(None)
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..3dbc6ae 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -309,7 +309,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
-- 
2.43.0


From cd951ddfa7d72686954523345871c9e0fe10251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:48 +0000
Subject: [PATCH 72/81] fix: route metadata to the loading matrix estimator of
 the factor model

---
 src/skfolio/prior/_factor_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 28154e7..b6050ba 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -220,9 +220,16 @@ class FactorModel(BasePrior):
 
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
-        router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            factor_prior_estimator=self.factor_prior_estimator,
-            method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+        router = (
+            skm.MetadataRouter(owner=self.__class__.__name__)
+            .add(
+                factor_prior_estimator=self.factor_prior_estimator,
+                method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+            )
+            .add(
+                loading_matrix_estimator=self.loading_matrix_estimator,
+                method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+            )
         )
         return router
 
@@ -272,7 +279,9 @@ class FactorModel(BasePrior):
         factor_returns = self.factor_prior_estimator_.prior_model_.returns
 
         # Fitting loading matrix estimator
-        self.loading_matrix_estimator_.fit(X, y)
+        self.loading_matrix_estimator_.fit(
+            X, y, **routed_params.loading_matrix_estimator.fit
+        )
         loading_matrix = self.loading_matrix_estimator_.loading_matrix_
         intercepts = self.loading_matrix_estimator_.intercepts_
 
-- 
2.43.0


From d414779719bc796bd7438bd9553c3af67313e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:14 +0000
Subject: [PATCH 73/81] fix: give nested clusters the metadata columns of their
 own assets when cross-validating

---
 src/skfolio/optimization/cluster/_nco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7d22bb7..967219f 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -340,7 +340,10 @@ class NestedClustersOptimization(BaseOptimization):
                     verbose=self.verbose,
                     column_indices=cluster_ids,
                     method="predict",
-                    params=routed_params.inner_estimator.fit,
+                    params={
+                        key: safe_indexing(value, indices=cluster_ids, axis=1)
+                        for key, value in routed_params.inner_estimator.fit.items()
+                    },
                 )
                 for cluster_ids in clusters
                 if len(cluster_ids) != 1
-- 
2.43.0


From 456ddf4b3ebb521071f06278ffc2cf2d6ebbcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:15 +0000
Subject: [PATCH 74/81] fix: select observations instead of portfolios in the
 population cumulative returns plot

---
 src/skfolio/population/_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index ed04384..3cff6e2 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -607,10 +607,11 @@ class Population(list):
             yaxis_title = title
             title = f"{title} (non-compounded)"
 
-        df = pd.concat(cumulative_returns, axis=1).iloc[:, idx]
+        df = pd.concat(cumulative_returns, axis=1)
         # Sort index because pd.concat unsort NaNs at the end
         df.sort_index(inplace=True)
         df.columns = deduplicate_names(names)
+        df = df.iloc[idx]
 
         fig = df.plot(backend="plotly")
         fig.update_layout(
-- 
2.43.0


From 94209721c16f70d5d3616dc05d8438f69eafe0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:15 +0000
Subject: [PATCH 75/81] fix: plot the distribution of measures for tags of
 different sizes

---
 src/skfolio/population/_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 3cff6e2..7939845 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -531,8 +531,11 @@ class Population(list):
                 values.append(self.measures(measure=measure))
                 labels.append(measure.value)
 
-        df = pd.DataFrame(np.array(values).T, columns=labels).melt(
-            var_name="Population"
+        df = pd.DataFrame(
+            {
+                "Population": np.repeat(labels, [len(v) for v in values]),
+                "value": np.concatenate(values),
+            }
         )
         fig = px.histogram(
             df,
-- 
2.43.0


From b1a054e00d13e479690044af4266bb68dc6d3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:11 +0000
Subject: [PATCH 76/81] fix: return an array from the elliptical copula cdf of
 a single observation

---
 src/skfolio/distribution/copula/_gaussian.py  | 2 +-
 src/skfolio/distribution/copula/_student_t.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/distribution/copula/_gaussian.py b/src/skfolio/distribution/copula/_gaussian.py
index 5632ea0..036e086 100644
--- a/src/skfolio/distribution/copula/_gaussian.py
+++ b/src/skfolio/distribution/copula/_gaussian.py
@@ -213,7 +213,7 @@ class GaussianCopula(BaseBivariateCopula):
             mean=np.array([0, 0]),
             cov=np.array([[1, self.rho_], [self.rho_, 1]]),
         )
-        return cdf
+        return np.atleast_1d(cdf)
 
     def partial_derivative(
         self, X: npt.ArrayLike, first_margin: bool = False
diff --git a/src/skfolio/distribution/copula/_student_t.py b/src/skfolio/distribution/copula/_student_t.py
index 1440c92..b5fd8b6 100644
--- a/src/skfolio/distribution/copula/_student_t.py
+++ b/src/skfolio/distribution/copula/_student_t.py
@@ -265,7 +265,7 @@ class StudentTCopula(BaseBivariateCopula):
             shape=np.array([[1, self.rho_], [self.rho_, 1]]),
             df=self.dof_,
         )
-        return cdf
+        return np.atleast_1d(cdf)
 
     def partial_derivative(
         self, X: npt.ArrayLike, first_margin: bool = False
-- 
2.43.0


From 297c5d7c5e15810ff3cc8ef4a3b79b055a99e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:27 +0000
Subject: [PATCH 77/81] fix: plot vine copulas fitted without asset names and
 subsets given by name

---
 .../distribution/multivariate/_base.py        |  8 ++++++--
 .../distribution/multivariate/_vine_copula.py | 20 +++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_base.py b/src/skfolio/distribution/multivariate/_base.py
index 279b236..5973d99 100644
--- a/src/skfolio/distribution/multivariate/_base.py
+++ b/src/skfolio/distribution/multivariate/_base.py
@@ -13,6 +13,7 @@ import plotly.graph_objects as go
 import sklearn.utils as sku
 
 from skfolio.distribution._base import BaseDistribution
+from skfolio.utils.tools import default_asset_names
 
 
 class BaseMultivariateDist(BaseDistribution, ABC):
@@ -176,6 +177,9 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         """
         traces = []
         n_assets = self.n_features_in_
+        assets_names = getattr(
+            self, "feature_names_in_", default_asset_names(n_assets=n_assets)
+        )
         if X is not None:
             X = np.asarray(X)
             if X.ndim != 2:
@@ -195,7 +199,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
             traces.append(
                 go.Splom(
                     dimensions=[
-                        {"label": self.feature_names_in_[i], "values": X[:, i]}
+                        {"label": assets_names[i], "values": X[:, i]}
                         for i in range(n_assets)
                     ],
                     showupperhalf=False,
@@ -216,7 +220,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         traces.append(
             go.Splom(
                 dimensions=[
-                    {"label": self.feature_names_in_[i], "values": sample[:, i]}
+                    {"label": assets_names[i], "values": sample[:, i]}
                     for i in range(n_assets)
                 ],
                 showupperhalf=False,
diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 2873f19..fe76a54 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -65,7 +65,11 @@ from skfolio.distribution.univariate import (
     StudentT,
     select_univariate_dist,
 )
-from skfolio.utils.tools import input_to_array, validate_input_list
+from skfolio.utils.tools import (
+    default_asset_names,
+    input_to_array,
+    validate_input_list,
+)
 
 _UNIFORM_SAMPLE_EPSILON = 1e-14
 
@@ -1050,7 +1054,15 @@ class VineCopula(BaseMultivariateDist):
             A figure with overlaid univariate distributions for each asset.
         """
         n_assets = self.n_features_in_
-        subset = subset or list(range(n_assets))
+        subset = validate_input_list(
+            items=subset or list(range(n_assets)),
+            n_assets=n_assets,
+            assets_names=getattr(self, "feature_names_in_", None),
+            name="subset",
+        )
+        assets_names = getattr(
+            self, "feature_names_in_", default_asset_names(n_assets=n_assets)
+        )
         colors = px.colors.qualitative.Plotly
         if X is not None:
             X = np.asarray(X)
@@ -1078,7 +1090,7 @@ class VineCopula(BaseMultivariateDist):
                     x=samples[:, s],
                     opacity=1.0,
                     color=colors[i % len(colors)],
-                    name=f"{self.feature_names_in_[s]} Generated",
+                    name=f"{assets_names[s]} Generated",
                     visible=True if i == 0 else "legendonly",
                 )
             )
@@ -1090,7 +1102,7 @@ class VineCopula(BaseMultivariateDist):
                         x=X[:, s],
                         opacity=0.6,
                         color=colors[i % len(colors)],
-                        name=f"{self.feature_names_in_[s]} Empirical",
+                        name=f"{assets_names[s]} Empirical",
                         visible=True if i == 0 else "legendonly",
                     )
                 )
-- 
2.43.0


From 97fdcf7e46c2b0d2cec832fcdc7e5e53d51cf0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:08 +0000
Subject: [PATCH 78/81] fix: plot surfaces of ratio measures

---
 src/skfolio/population/_population.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 7939845..22df117 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -817,8 +817,7 @@ class Population(list):
                                 str(e)
                                 + ": %{"
                                 + v
-                                + ":"
-                                + (",.3%" if not e.is_ratio else None)
+                                + (":,.3%" if not e.is_ratio else "")
                                 + "}"
                                 for e, v in [(x, "x"), (y, "y"), (z, "z")]
                             ]
-- 
2.43.0


From 27a497bcecb988719ddf62cd872b5d8ff04bb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:08 +0000
Subject: [PATCH 79/81] fix: plot contributions and rolling measures without a
 non-zero finite value

---
 src/skfolio/utils/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 8147338..aa5a128 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -548,6 +548,8 @@ def optimal_rounding_decimals(x: float) -> int:
     n : int
         Rounding decimal number.
     """
+    if x == 0 or not np.isfinite(x):
+        return 2
     return min(6, max(int(-np.log10(abs(x))) + 2, 2))
 
 
-- 
2.43.0


From 7fc952806cf7e02b4e03b137eed9bbe73669f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:42 +0000
Subject: [PATCH 80/81] fix: refuse to predict on assets that differ from the
 fitted ones

---
 src/skfolio/optimization/_base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/skfolio/optimization/_base.py b/src/skfolio/optimization/_base.py
index 34fceb9..ef6d29c 100644
--- a/src/skfolio/optimization/_base.py
+++ b/src/skfolio/optimization/_base.py
@@ -13,6 +13,7 @@ from sklearn.utils.validation import check_is_fitted
 from skfolio.measures import RatioMeasure
 from skfolio.population import Population
 from skfolio.portfolio import Portfolio
+from skfolio.utils.tools import get_feature_names
 
 # Copyright (c) 2023
 # Author: Hugo Delatte <delatte.hugo@gmail.com>
@@ -78,6 +79,19 @@ class BaseOptimization(skb.BaseEstimator, ABC):
         """
         check_is_fitted(self, "weights_")
 
+        # The weights follow the order of the assets seen during `fit`
+        fitted_names = getattr(self, "feature_names_in_", None)
+        names = get_feature_names(X)
+        if (
+            fitted_names is not None
+            and names is not None
+            and not np.array_equal(fitted_names, names)
+        ):
+            raise ValueError(
+                "The asset names should match those that were passed during fit, in "
+                f"the same order. Got {list(names)}, expected {list(fitted_names)}"
+            )
+
         if self.portfolio_params is None:
             ptf_kwargs = {}
         else:
-- 
2.43.0


From f36783dfc359ba09a7065e4e03808f434738cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:26:06 +0000
Subject: [PATCH 81/81] fix: warn on missing groups in group_cardinalities
 instead of raising

---
 src/skfolio/optimization/convex/_base.py | 6 ++++--
 src/skfolio/utils/equations.py           | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 6f5d9c4..449af38 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2175,7 +2175,8 @@ def _mip_weight_constraints_no_short_threshold(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     if isinstance(factor, cp.Variable):
         is_invested_factor = cp.Variable(n_assets, nonneg=True)
@@ -2251,7 +2252,8 @@ def _mip_weight_constraints_threshold_short(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     M = 1e3
     # Big M method to activate or deactivate constraints
diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index c86f858..cfe7c97 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -182,7 +182,7 @@ def group_cardinalities_to_matrix(
             a_inequality.append(arr)
             b_inequality.append(card)
 
-        except GroupNotFoundError as e:
+        except EquationToMatrixError as e:
             if raise_if_group_missing:
                 raise
             warnings.warn(str(e), stacklevel=2)
-- 
2.43.0

