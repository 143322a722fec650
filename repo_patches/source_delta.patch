From c296f04046dc984b927fd0198bd14b7e22475665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 01/10] fix: t_test used np.float (removed from numpy) and
 crashed on zero-variance samples

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 63cc9d50295392dba023b702117a89e66ad644f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 02/10] fix: pass the joblib Memory directory positionally
 (cachedir keyword was removed)

---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 6018e58319baf316f7e39001faeae1265280623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 03/10] fix: build_lag_df added a range to a list, a TypeError
 in Python 3

---
 mlpaper/data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..063c068 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -61,7 +61,7 @@ def build_lag_df(df, n_lags, stride=1, features=None):
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From 9b3e08a222f071d82634cdde8a01991b2fe04073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 04/10] fix: TeX shift header held a tab instead of \times

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 17608598c7c826eeef5b309e36d2ebee18e7cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 05/10] fix: iid classifier rejected bool training labels

---
 mlpaper/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..2a1f63b 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,7 +642,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
-        counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
+        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
         assert self.pred.shape == (n_labels,)
-- 
2.43.0


From a28cb67ac3715b086d40d1c1713b4a98bab452e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 06/10] fix: clip_EB returned NaN instead of the error bar when
 mu is NaN

---
 mlpaper/mlpaper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..ab90666 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -59,6 +59,7 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
     assert not (min_EB > EB_trivial)  # Let NaNs pass
+    EB_trivial = np.inf if np.isnan(EB_trivial) else EB_trivial  # np.clip propagates NaN limits
     EB = np.clip(EB, min_EB, EB_trivial)
     return EB
 
-- 
2.43.0


From c4cb16b560ab16ad09d21e2136970663f6e4c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 07/10] fix: loss_summary_table crashed when the mean rounds
 just past a limit

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ab90666..5e18151 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -531,7 +531,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
                     _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
             else:
                 mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
-                assert mu_ == mu
+                assert np.isclose(mu_, mu)
                 if not self_comparison:  # Otherwise pval as nan
                     pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
 
-- 
2.43.0


From b74c69edeb4ebf9270a3ec5c87c94428d04ff4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 08/10] fix: ordered split failed an assertion whenever frac *
 n_cases is an integer

---
 mlpaper/data_splitter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 063c068..94b1a65 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,12 +213,13 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
-    assert 0 <= idx  # Should never happen due to frac check earlier
+    # Number of cases in train, rounded up just like in rand_subset()
+    idx = max(int(np.ceil(frac * len(all_cases))), 1) - 1
+    assert 0 <= idx and idx < len(all_cases)
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-    assert np.mean(all_cases <= pivotal_case) >= frac
-    assert idx == 0 or np.mean(all_cases <= all_cases[idx - 1]) < frac
+    assert idx + 1 >= len(all_cases) * frac
+    assert idx == 0 or idx < len(all_cases) * frac
     train_curr = S <= pivotal_case
     return train_curr
 
-- 
2.43.0


From 22a61eaf343ab5d2ec05b35b57eff7b1d828e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 09/10] fix: format_table built a ValueError without raising it

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..2c65ef4 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -779,7 +779,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
             # Check all to dot, otherwise will get error. We could do this
             # check in an except block only to optimize computation.
             if not all(decimal_to_dot(x) for x in mean_series[idx]):
-                ValueError("shift_mod=None not possible for %s due to " "insufficient precision" % metric)
+                raise ValueError("shift_mod=None not possible for %s due to " "insufficient precision" % metric)
         else:
             # The .tolist() might not be needed, but doing anyway to be safe.
             best_shift = find_shift(mean_series[idx].tolist(), err_series[idx].tolist(), shift_mod=shift_mod)
-- 
2.43.0


From 74565f0cabd43726f5868047d96aa0293019cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 10/10] fix: decimalize put values in the wrong stat column
 when stats are reordered

---
 mlpaper/sciprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 2c65ef4..86ee5e7 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,9 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0

