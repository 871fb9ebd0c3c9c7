From 9192361fc6748bef2b6e1cf751a8aa40e3de9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 1/5] fix: interpolate simulated continuation values on the
 model's experience grid

---
 soepy/simulate/simulate_auxiliary.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..b20a716 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_exp_grid(
+            continuation_grid, stock[:, None], model_spec.exp_grid
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -322,8 +324,8 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_exp_grid(values, stock, exp_grid):
+    """Interpolate linearly along the last axis on the experience grid.
 
     Parameters
     ----------
@@ -331,14 +333,18 @@ def _interp_uniform_grid(values, stock):
         Shape (..., n_grid)
     stock : np.ndarray
         Shape (...) matching the leading dimensions of values.
+    exp_grid : array-like
+        Increasing experience grid of shape (n_grid,).
     """
 
-    n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    exp_grid = np.asarray(exp_grid)
+    x = np.clip(stock, 0.0, 1.0)
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(
+        np.searchsorted(exp_grid, x, side="right"), 1, exp_grid.shape[0] - 1
+    )
+    idx_lo = idx_hi - 1
+    w = (x - exp_grid[idx_lo]) / (exp_grid[idx_hi] - exp_grid[idx_lo])
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From c12a8ae219888a5d89c882ab13182278fc9e68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 2/5] fix: scale wages behind simulated non-employment benefits
 as in the solution

---
 soepy/simulate/simulate_auxiliary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index b20a716..80b75d3 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -161,10 +161,9 @@ def simulate_agents_over_periods(
                 pt_increment=pt_increment,
                 period=period,
             )
-        )
+        ) + np.log(model_spec.elasticity_scale)
 
         wages = np.exp(log_wage_agents + draws_sim[period, : len(current_states)])
-        wages = wages * float(model_spec.elasticity_scale)
 
         female_income = wages[:, None] * HOURS[None, 1:]
 
-- 
2.43.0


From f3acb632a248732c0c31dad60b556c317ca71678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 3/5] fix: pay child-raising benefit in the solution
 independently of child benefits

---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From b17d8e2539985698e2908c2af5ac76b89db1cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 4/5] fix: use the same positive consumption floor in solution
 and simulation

---
 soepy/solve/emaxs.py            | 4 ++--
 soepy/solve/validation_solve.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soepy/solve/emaxs.py b/soepy/solve/emaxs.py
index a3a43b4..7e9a41b 100644
--- a/soepy/solve/emaxs.py
+++ b/soepy/solve/emaxs.py
@@ -23,7 +23,7 @@ def _get_max_aggregated_utilities(
     child_care_costs,
     child_care_bin,
 ):
-    consumption_0 = non_employment_consumption_resources / equivalence
+    consumption_0 = non_employment_consumption_resources.clip(min=jnp.finfo(float).eps) / equivalence
 
     current_max_value_function = (consumption_0**mu / mu) * non_consumption_utilities[
         0
@@ -43,7 +43,7 @@ def _get_max_aggregated_utilities(
         child_costs = child_care_costs[child_care_bin, j - 1]
 
         consumption = (net_income + child_benefits - child_costs).clip(
-            min=1e-14
+            min=jnp.finfo(float).eps
         ) / equivalence
         consumption_utility = consumption**mu / mu
 
diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 013592e..7572df2 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -29,7 +29,7 @@ def _get_max_aggregated_utilities(
     erziehungsgeld_inc_married,
     erziehungsgeld,
 ):
-    consumption_0 = non_employment_consumption_resources / equivalence
+    consumption_0 = non_employment_consumption_resources.clip(min=jnp.finfo(float).eps) / equivalence
     current_max_value_function = (consumption_0**mu / mu) * non_consumption_utilities[
         0
     ] + delta * continuation_values[0]
@@ -59,7 +59,7 @@ def _get_max_aggregated_utilities(
         child_costs = child_care_costs[child_care_bin, j - 1]
 
         consumption = (net_income + child_benefits - child_costs).clip(
-            min=1e-14
+            min=jnp.finfo(float).eps
         ) / equivalence
         consumption_utility = consumption**mu / mu
 
-- 
2.43.0


From 74aae7fde957b1c746bb616f336f9e5c0a37bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 5/5] fix: pair type shares and type disutilities by type
 number

---
 soepy/pre_processing/model_processing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..819995d 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -49,7 +49,11 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            v
+            for k, v in sorted(
+                model_params_dict["shares"].items(), key=get_type_number
+            )
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +81,12 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def get_type_number(item):
+    """Number of the unobserved type in a labeled parameter, e.g. 2 for share_2."""
+    label, _ = item
+    return int("".join(filter(str.isdigit, label)))
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -140,7 +150,10 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(),
+                    key=get_type_number,
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0

