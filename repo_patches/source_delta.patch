From 5d3d1cbfd4be3937ac9f83031611eac880e146f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:16 +0000
Subject: [PATCH 01/22] fix: repeat observed factors once per sigma point of
 each mixture component

---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From 9ac25ca616038de88f5964d6cc018271b6c2c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 02/22] fix: keep observed factors of individuals whose
 controls are missing

---
 skillmodels/process_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..0c4781e 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,11 +34,13 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
+    # this needs to be done before discarding the measurements of individuals with missing
+    # controls because observed factors are needed (and available) for those as well.
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
     df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
 
     if purpose == "estimation":
         out = (meas_data, control_data, observed_data)
-- 
2.43.0


From 988da7d604c78aea7c0351b1c4a23a8b8bccb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 03/22] fix: label debug output with the individual's id in
 mixture models

---
 skillmodels/process_debug_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..aa2a47a 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +164,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From 6af314b142b9f7d884e3717a6febce53f8e38e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 04/22] fix: assign anchoring parameters to factors independent
 of outcome order

---
 skillmodels/process_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..99570e4 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,10 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # the factors need to have the same order as in the rest of the model because
+        # the anchoring parameters are assigned to the anchored factors by position.
+        latent_factors = list(model_dict["factors"])
+        anchinfo["factors"] = sorted(anchinfo["outcomes"], key=latent_factors.index)
 
     return anchinfo
 
-- 
2.43.0


From c0e61f41612b178e0a45ee606f514590434f374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:59 +0000
Subject: [PATCH 05/22] fix: ignore unused levels of the data's index when
 numbering periods

---
 skillmodels/process_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 0c4781e..39bc4b4 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -66,7 +66,8 @@ def pre_process_data(df, periods):
     df["__old_id__"] = df.index.get_level_values(0)
     df["__old_period__"] = df.index.get_level_values(1)
 
-    # replace existing codes for periods and
+    # replace existing codes for periods and ids
+    df.index = df.index.remove_unused_levels()
     df.index.names = ["id", "period"]
     for level in [0, 1]:
         df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
-- 
2.43.0


From 4fa961a6297e074309db85554042fd296a010be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:30 +0000
Subject: [PATCH 06/22] fix: do not modify global warning filters, which is not
 thread-safe

---
 skillmodels/constraints.py  | 25 ++++++++++++-------------
 skillmodels/parse_params.py | 20 +++++++-------------
 2 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..a2ac13f 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -1,5 +1,4 @@
 """Construct an estimagic constraints list for a model."""
-import warnings
 
 import numpy as np
 
@@ -57,18 +56,18 @@ def add_bounds(params_df, bounds_distance=0.0):
 
     """
     df = params_df.copy()
-    with warnings.catch_warnings():
-        warnings.filterwarnings(
-            "ignore", message="indexing past lexsort depth may impact performance."
-        )
-        if "lower_bound" not in df.columns:
-            df["lower_bound"] = -np.inf
-        df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
-
-        cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
-        ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
-        df.loc[ind_tups, "lower_bound"] = bounds_distance
+    if "lower_bound" not in df.columns:
+        df["lower_bound"] = -np.inf
+
+    # Do not use labels for the selection because this raises PerformanceWarnings if the
+    # index is not lexsorted. Silencing them via warnings.catch_warnings would not be
+    # thread-safe.
+    has_bound = [
+        tup[0] in ("meas_sds", "shock_sds")
+        or (tup[0] == "initial_cholcovs" and _is_diagonal_entry(tup))
+        for tup in df.index
+    ]
+    df.loc[has_bound, "lower_bound"] = bounds_distance
 
     return df
 
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..1c1a840 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -1,5 +1,3 @@
-import warnings
-
 import jax.numpy as jnp
 import numpy as np
 import pandas as pd
@@ -77,17 +75,13 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
 
 
 def _get_positional_selector_from_loc(range_sr, loc):
-    with warnings.catch_warnings():
-        warnings.filterwarnings(
-            "ignore", message="indexing past lexsort depth may impact performance."
-        )
-        try:
-            ilocs = jnp.array(range_sr.loc[loc])
-        except KeyError:
-            ilocs = slice(0, 0)
-        except Exception:
-            raise
-    return ilocs
+    # Do not use range_sr.loc because it raises PerformanceWarnings if the index is not
+    # lexsorted. Silencing them via warnings.catch_warnings would not be thread-safe.
+    if isinstance(loc, str):
+        mask = range_sr.index.get_level_values(0) == loc
+    else:
+        mask = range_sr.index.isin(loc)
+    return jnp.array(range_sr[mask].to_numpy()) if mask.any() else slice(0, 0)
 
 
 def parse_params(params, parsing_info, dimensions, labels, n_obs):
-- 
2.43.0


From 5b4f78716ff170065a2eb123ba525dd287972829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:56 +0000
Subject: [PATCH 07/22] fix: do not add entries to the caller's factor_mapping

---
 skillmodels/visualize_factor_distributions.py | 1 +
 skillmodels/visualize_transition_equations.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..8be9034 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -595,6 +595,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = mapper.copy()
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..829d3e9 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -473,6 +473,7 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     if factor_mapper is None:
         factor_mapper = {fac: fac for fac in all_factors}
     else:
+        factor_mapper = factor_mapper.copy()
         for fac in all_factors:
             if fac not in factor_mapper:
                 factor_mapper[fac] = fac
-- 
2.43.0


From da4348c59889654a1397e2ee647b2cf205eadd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 08/22] fix: update parameter values under pandas copy-on-write

---
 skillmodels/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..11c43ab 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -50,8 +50,10 @@ def update_parameter_values(params, others):
         others = [others]
 
     out = params.copy(deep=True)
+    value = out["value"].copy()
     for other in others:
-        out["value"].update(other["value"])
+        value.update(other["value"])
+    out["value"] = value
 
     return out
 
-- 
2.43.0


From 9c6adda5e11bc644741c2a9ed1e9d68e383e0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 09/22] fix: pair latent and observed factors of the same
 individual in density plots

---
 skillmodels/visualize_factor_distributions.py | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 8be9034..3167145 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +315,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -429,7 +430,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -474,26 +475,26 @@ def bivariate_density_surfaces(
 
 def _process_data(states, period, factors, observed_states=None):
     if isinstance(states, pd.DataFrame):
-        to_concat = []
-        for fac in factors:
-            if fac in states:
-                to_concat.append(states.query(f"period == {period}")[fac])
-        data = pd.concat(to_concat, axis=1)
-        data["scenario"] = "none"
-    else:
-        if not isinstance(states, dict):
-            states = {i: df for i, df in enumerate(states)}
-        to_concat = []
-        for name, df in states.items():
-            df = df.query(f"period == {period}")[factors]
-            df["scenario"] = name
-            to_concat.append(df)
-        data = pd.concat(to_concat)
-    data = data.reset_index()
-    if observed_states is not None:
-        data = pd.concat(
-            [data, observed_states.query(f"period == {period}").reset_index()], axis=1
-        )
+        states = {"none": states}
+    elif not isinstance(states, dict):
+        states = {i: df for i, df in enumerate(states)}
+    to_concat = []
+    for name, df in states.items():
+        df = df.query(f"period == {period}")
+        if observed_states is None:
+            df = df[factors].copy()
+        else:
+            # merge by id because the rows of states and data can be ordered differently
+            latent = [fac for fac in factors if fac not in observed_states]
+            df = pd.merge(
+                left=df[["id"] + latent],
+                right=observed_states.query(f"period == {period}"),
+                on="id",
+                how="left",
+            )
+        df["scenario"] = name
+        to_concat.append(df)
+    data = pd.concat(to_concat).reset_index(drop=True)
     return data
 
 
@@ -623,14 +624,16 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+def _get_data_observed_factors(data, factors, model):
+    """Get data with observed factors if any.
+
+    The "id" and "period" columns are the same as in the filtered states.
+
+    """
+    observed = [fac for fac in factors if fac in model["labels"]["observed_factors"]]
+    if observed:
+        balanced = pre_process_data(data, model["labels"]["periods"])
+        observed_states = balanced[observed].reset_index()
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 9d926b25037415e426d9901c0c92f48ca8da1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:34 +0000
Subject: [PATCH 10/22] fix: label filtered states correctly if there are
 periods without measurements

---
 skillmodels/process_debug_data.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index aa2a47a..206166c 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -125,17 +125,14 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
+    # position of the last measurement update in each period that has measurements
+    keep = {}
+    for i, (period, _) in enumerate(update_info.index):
+        if update_info["purpose"].iloc[i] == "measurement":
+            keep[period] = i
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From d58e5a861cb9ef4ac20ad40fd3b0a50ccc088098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:07 +0000
Subject: [PATCH 11/22] fix: simulate models that have periods without
 measurements

---
 skillmodels/simulate_data.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..0b3853a 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -237,16 +237,19 @@ def _simulate_dataset(
     observed_data_by_period = []
 
     for t in range(n_periods):
-        meas = pd.DataFrame(
-            data=measurements_from_states(
-                latent_states[t],
-                control_data[t],
-                loadings_df.loc[t].to_numpy(),
-                control_params_df.loc[t].to_numpy(),
-                meas_sds.loc[t].to_numpy().flatten(),
-            ),
-            columns=loadings_df.loc[t].index,
-        )
+        if t in update_info.index:
+            meas = pd.DataFrame(
+                data=measurements_from_states(
+                    latent_states[t],
+                    control_data[t],
+                    loadings_df.loc[t].to_numpy(),
+                    control_params_df.loc[t].to_numpy(),
+                    meas_sds.loc[t].to_numpy().flatten(),
+                ),
+                columns=loadings_df.loc[t].index,
+            )
+        else:
+            meas = pd.DataFrame(index=range(n_obs))
         meas["period"] = t
         observed_data_by_period.append(meas)
 
-- 
2.43.0


From e396a7993394504cc919d5912b35ffdcfaa2b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:54 +0000
Subject: [PATCH 12/22] fix: number ids and periods by value, not by the order
 of index levels

---
 skillmodels/process_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 39bc4b4..4fbb12e 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -67,10 +67,12 @@ def pre_process_data(df, periods):
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and ids
-    df.index = df.index.remove_unused_levels()
-    df.index.names = ["id", "period"]
-    for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+    # the order of the levels of an index can differ from the order of its values and
+    # levels can be unused. Thus new codes are based on values.
+    codes = [
+        pd.factorize(df.index.get_level_values(level), sort=True)[0] for level in [0, 1]
+    ]
+    df.index = pd.MultiIndex.from_arrays(codes, names=["id", "period"])
 
     # create new index
     ids = sorted(df.index.get_level_values("id").unique())
-- 
2.43.0


From 685422f89b5a0d61c37013d26db528b8213106f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 13/22] fix: correlations of models that have periods without
 measurements

---
 skillmodels/correlation_heatmap.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..81762ed 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -293,7 +293,9 @@ def _get_measurement_data_for_single_period(
 
     """
 
-    period_info = update_info.loc[period].reset_index()
+    period_info = update_info.query(
+        f"{update_info.index.names[0]}=={period}"
+    ).reset_index()
     measurements = []
 
     for fac in latent_factors:
@@ -394,7 +396,9 @@ def _get_quasi_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = update_info.query(
+        f"{update_info.index.names[0]}=={period}"
+    ).reset_index()
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = period_info.query(
@@ -505,12 +509,14 @@ def _get_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = update_info.query(
+        f"{update_info.index.names[0]}=={period}"
+    ).reset_index()
     params = params.query(f"period=={period}").droplevel("period")
-    loadings = params.loc["loadings"]["value"]
-    intercepts = (
-        params.loc["controls"].query("name2 == 'constant'").droplevel("name2")["value"]
-    )
+    loadings = params.query("category == 'loadings'").droplevel("category")["value"]
+    intercepts = params.query("category == 'controls' and name2 == 'constant'").droplevel(
+        ["category", "name2"]
+    )["value"]
     loadings_count = loadings.astype(bool).groupby("name1").sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
-- 
2.43.0


From 2bcacfd7913dfd25da7fce9ad66e4394e8ce561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 14/22] fix: return bivariate density plots in an order that
 does not depend on hashes

---
 skillmodels/visualize_factor_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 3167145..b833eb0 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -331,7 +331,7 @@ def bivariate_density_contours(
         for fac2 in factors:
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
-    pairs = list(set(pairs))
+    pairs = list(dict.fromkeys(pairs))
     for pair in pairs:
         fig = go.Figure()
         for i, scenario in enumerate(df["scenario"].unique()):
@@ -441,7 +441,7 @@ def bivariate_density_surfaces(
         for fac2 in factors:
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
-    pairs = list(set(pairs))
+    pairs = list(dict.fromkeys(pairs))
     for pair in pairs:
         try:
             x, y, z = _calculate_kde_for_3d(df, pair, n_points)
-- 
2.43.0


From 1dc72c32d07931a5a13bc9cb695ac897387734ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:48 +0000
Subject: [PATCH 15/22] fix: do not mirror bivariate density contours

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index b833eb0..fb81523 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -342,7 +342,8 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    # in contour plots the first dimension of z is the y axis
+                    z=z.T,
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From 1b0f1ed48ead5dd4af63fdbdbbec0db6a51d6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:53 +0000
Subject: [PATCH 16/22] fix: combine density plots that contain histograms

---
 skillmodels/visualize_factor_distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index fb81523..99c3582 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -125,7 +125,13 @@ def combine_distribution_plots(
                     fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_xaxes(title=factor_names[fac1], col=col + 1, row=row + 1)
                     fig.update_yaxes(title="Density", col=col + 1, row=row + 1)
-                    fig.update_traces(line_width=line_width, row=row + 1, col=col + 1)
+                    # histograms do not have lines
+                    fig.update_traces(
+                        selector={"type": "scatter"},
+                        line_width=line_width,
+                        row=row + 1,
+                        col=col + 1,
+                    )
 
             else:
                 if surface_plots is not None:
-- 
2.43.0


From 81abf5c69e0391535190b549d3c987318ad51ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:53 +0000
Subject: [PATCH 17/22] fix: plot univariate densities of several scenarios if
 states is a list

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 99c3582..d66c386 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -522,7 +522,8 @@ def _process_distplot_kwargs(
         "show_curve": show_curve,
         "curve_type": curve_type,
         "bin_size": bin_size,
-        "group_labels": scenarios,
+        # plotly does not accept numpy integers, which we get if states is a list
+        "group_labels": [str(scenario) for scenario in scenarios],
         "colors": getattr(px.colors.qualitative, colorscale),
     }
     if distplot_kwargs:
-- 
2.43.0


From 418eeb7297658663f037f9e9ad0f129f1d18ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 18/22] fix: do not confuse data columns called period with the
 index level

---
 skillmodels/correlation_heatmap.py | 29 ++++++++++++++++++++---------
 skillmodels/process_data.py        | 18 +++++++++++-------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 81762ed..e8259c6 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -304,7 +304,7 @@ def _get_measurement_data_for_single_period(
         )["variable"].to_list()
     for fac in observed_factors:
         measurements.append(fac)
-    df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
+    df = _select_period(data, update_info, period)[measurements]
     return df
 
 
@@ -340,6 +340,21 @@ def _get_measurement_data_for_multiple_periods(
     return df
 
 
+def _select_period(data, update_info, period):
+    """Select the rows of data that belong to a period.
+
+    Do not use data.query because it would prefer a column of the user's data over the
+    index level if both have the same name.
+
+    """
+    name = update_info.index.names[0]
+    if name in data.index.names:
+        periods = data.index.get_level_values(name)
+    else:
+        periods = data[name]
+    return data[periods == period]
+
+
 def _get_quasi_factor_scores_data(
     data, update_info, periods, latent_factors, observed_factors
 ):
@@ -404,15 +419,13 @@ def _get_quasi_factor_scores_data_for_single_period(
         period_factor_measurements = period_info.query(
             f"{factor} == True and purpose == 'measurement'"
         )["variable"].to_list()
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
-            period_factor_measurements
-        ]
+        df = _select_period(data, update_info, period)[period_factor_measurements]
         df = (df - df.mean()) / df.std()
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info, period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -527,16 +540,14 @@ def _get_factor_scores_data_for_single_period(
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
-            period_factor_measurements
-        ]
+        df = _select_period(data, update_info, period)[period_factor_measurements]
         for m in period_factor_measurements:
             df[m] = (df[m] - intercepts.loc[m]) / loadings.loc[(m, factor)]
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info, period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 4fbb12e..1b6b96d 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -84,6 +84,12 @@ def pre_process_data(df, periods):
     return df
 
 
+def _select_period(df, period):
+    # Do not use df.query because it would prefer a column of the user's data that is
+    # called "period" over the index level.
+    return df[df.index.get_level_values("period") == period]
+
+
 def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
@@ -95,7 +101,7 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
 def _check_data(df, update_info, labels, purpose):
     var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
     for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         for cont in labels["controls"]:
             if cont not in period_data.columns or period_data[cont].isnull().all():
                 var_report.loc[(period, cont), "problem"] = "Variable is missing"
@@ -126,7 +132,7 @@ def _handle_controls_with_missings(df, controls, update_info):
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
     for period in periods:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         control_data = period_data[controls]
         meas_data = period_data[get_period_measurements(update_info, period)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
@@ -144,21 +150,19 @@ def _handle_controls_with_missings(df, controls, update_info):
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+        arr[k] = _select_period(df, period)[var].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+        arr[period] = _select_period(df, period)[labels["controls"]].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_observed_factor_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
+        arr[period] = _select_period(df, period)[labels["observed_factors"]].to_numpy()
     return jnp.array(arr)
-- 
2.43.0


From 47f2c6b7e012950db6ac509902ecdf85b7d201dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 19/22] fix: do not interpret factor names in pandas queries

---
 skillmodels/correlation_heatmap.py | 18 +++++++++---------
 skillmodels/parse_params.py        |  5 +++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index e8259c6..5e257d8 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -299,9 +299,9 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        measurements += period_info.loc[
+            period_info[fac] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
     for fac in observed_factors:
         measurements.append(fac)
     df = _select_period(data, update_info, period)[measurements]
@@ -416,9 +416,9 @@ def _get_quasi_factor_scores_data_for_single_period(
     ).reset_index()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = period_info.loc[
+            period_info[factor] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
         df = _select_period(data, update_info, period)[period_factor_measurements]
         df = (df - df.mean()) / df.std()
         sr = df.mean(axis=1)
@@ -534,9 +534,9 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = period_info.loc[
+            period_info[factor] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 1c1a840..c64f9d4 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -50,8 +50,9 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     # "trans_coeffs"
     pos_dict = {}
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        is_transition = params_index.get_level_values("category") == "transition"
+        is_factor = params_index.get_level_values("name1") == factor
+        loc = params_index[is_transition & is_factor]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
-- 
2.43.0


From 5897539216660f6f515655802b63f697b29f7c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 20/22] fix: allow any factor name with the constant transition
 function

---
 skillmodels/process_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 99570e4..89ede91 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -3,7 +3,6 @@ from functools import partial
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -180,7 +179,7 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                func = _get_constant_func(func, pos=all_factors.index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -235,6 +234,15 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _get_constant_func(func, pos):
+    # Do not use the name of the factor as name of an argument because factor names do
+    # not need to be valid argument names.
+    def constant(states, params):
+        return func(state=states[pos], params=params)
+
+    return constant
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0


From 2949c08ad43ae2f517f04fbdc102b2a5fe76ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 21/22] fix: determine color range of correlation heatmaps
 before trimming

---
 skillmodels/correlation_heatmap.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 5e257d8..09fdbf1 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -83,12 +83,20 @@ def plot_correlation_heatmap(
         fig (plotly graph object): The figure with correlaiton heatmap.
 
     """
+    # the color range needs to be determined before trimming because the diagonal of a
+    # trimmed DataFrame does not contain the correlations of variables with themselves.
+    heatmap_kwargs = _get_heatmap_kwargs(
+        corr.round(rounding),
+        heatmap_kwargs,
+        colorscale,
+        show_color_bar,
+        zmax,
+        zmin,
+        zmid,
+    )
     corr = _process_corr_data_for_plotting(
         corr, rounding, show_upper_triangle, show_diagonal, trim_heatmap
     )
-    heatmap_kwargs = _get_heatmap_kwargs(
-        corr, heatmap_kwargs, colorscale, show_color_bar, zmax, zmin, zmid
-    )
     layout_kwargs = _get_layout_kwargs(
         corr=corr,
         layout_kwargs=layout_kwargs,
@@ -738,7 +746,9 @@ def _get_heatmap_kwargs(
 
     """
     if zmax is None:
-        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
+        abs_corr = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)]
+        abs_corr = abs_corr[~np.isnan(abs_corr)]
+        zmax = abs_corr.max() if len(abs_corr) > 0 else 1
     if zmin is None:
         zmin = -zmax
     if zmid is None:
-- 
2.43.0


From 14c86bc6577c15eeadf41c0df363f8cbc98c039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 22/22] fix: annotate correlation heatmaps with repeated
 variables

---
 skillmodels/correlation_heatmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 09fdbf1..6cb9fdf 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -706,11 +706,12 @@ def _get_annotations(
     annotation_kwargs = {}
     if annotate:
         annotations = []
-        for n in df.columns[::-1]:
-            for m in df.index[::-1]:
+        # select by position because measurements of several factors have several rows
+        for col, n in reversed(list(enumerate(df.columns))):
+            for row, m in reversed(list(enumerate(df.index))):
                 annotations.append(
                     {
-                        "text": str(df.loc[m, n]).replace("nan", ""),
+                        "text": str(df.iloc[row, col]).replace("nan", ""),
                         "x": n,
                         "y": m,
                         "xref": "x1",
-- 
2.43.0

