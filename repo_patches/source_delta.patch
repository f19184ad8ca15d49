From 50927bf37324dfcca9659a2fe3fd78cddded208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 01/16] fix: late_index_bimod transforms filled the alpha slots
 with beta values

---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From 64ecc9263926e97fe377c0ee2703e260f99c2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 02/16] fix: singlecen/singlesat drew t_peak and MAH scatter
 from the same PRNG key

---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 3 ++-
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..0408bd9 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -199,7 +199,8 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
+    _, mvn_key = jran.split(ran_key, 2)  # first key is used for t_peak
+    early_key, late_key = jran.split(mvn_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..7384ef2 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -199,7 +199,8 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
+    _, mvn_key = jran.split(ran_key, 2)  # first key is used for t_peak
+    early_key, late_key = jran.split(mvn_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From 42d5c542d6e44d604f97fdbe3c3c1ef1c711cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 03/16] fix: fitter kept target points clipped at lgm_min as if
 they were data

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..4ef8c7f 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -238,8 +238,9 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 
 def _get_clipped_log_mah(mah, lgm_min):
-    msk = mah <= 10**lgm_min
-    clip = EPSILON + 10**lgm_min
+    mah_min = 10**lgm_min
+    msk = mah <= mah_min
+    clip = 0.5 * mah_min if mah_min > 0 else EPSILON  # strictly below lgm_min
     clipped_log_mah = np.log10(np.where(msk, clip, mah))
     return clipped_log_mah
 
-- 
2.43.0


From 5e77648769e88af7296bf8ed28f1d3385659a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 04/16] fix: trimmed_mean discarded points lying exactly on the
 trimming percentiles

---
 diffmah/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..7d3a452 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -157,7 +157,7 @@ def trimmed_mean(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
@@ -185,7 +185,7 @@ def trimmed_mean_and_variance(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
 
-- 
2.43.0


From 0e7937e3c28e22d4e2451148c9eae1d1c55e439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 05/16] fix: load_flat_hdf5 mangled column names for nested
 dataset paths

---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 673c4775439b3be88dbd97be7b26c48973a02967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 06/16] fix: cumulative t_peak distribution of centrals was
 divided by t_0

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From 9172478adb7092f80c6627e36779d4c3209e0101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 07/16] fix: load_diffmahpop_targets counted samples in a
 hard-coded directory instead of drn

---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..36bcebd 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
-- 
2.43.0


From 975ea53fecea74b0e38d64db6c77d71adabc0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/16] fix: load_diffmahpop_targets built DiffmahParams
 without t_peak and misbound mah_halopop

---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 36bcebd..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From 56a8d09744db6c15126e83fef7f9ab6e7d35fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 09/16] fix: smdpl_diffmahpop_utils called mah_halopop with the
 removed t_peak argument

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..603408a 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From d50ffd91bbf133ff362cee083cce75ed9bc68d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 10/16] fix: hacc_discovery_sims_diffmah_fitter_script used
 names fitting_helpers does not export

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..c0db73d 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From a2cb2a1077011ec8f84c0869ecd64600a43d32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 11/16] fix: Last Journey fitting script skipped the last
 subvolume by default

---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..afc2944 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend",
+        help="Last subvolume in loop",
+        type=int,
+        default=NUM_SUBVOLS_LASTJOURNEY,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 83105a606f8e8dc186a756ba56f8123165dd1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/16] fix: fitting scripts ignored the -nstep option

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py   | 2 +-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c0db73d..c5b3a2f 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -112,7 +112,7 @@ if __name__ == "__main__":
 
                 for i in range(nhalos_for_rank):
                     mah = mahs_for_rank[i, :]
-                    fit_results = cfh.diffmah_fitter(tarr, mah)
+                    fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
                     outline = cfh.get_outline(fit_results)
                     fout.write(outline)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index afc2944..e44153a 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -115,7 +115,7 @@ if __name__ == "__main__":
 
                 for i in range(nhalos_for_rank):
                     mah = mahs_for_rank[i, :]
-                    fit_results = cfh.diffmah_fitter(tarr, mah)
+                    fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
                     outline = cfh.get_outline(fit_results)
                     fout.write(outline)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..9cddb5d 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -77,7 +77,7 @@ if __name__ == "__main__":
 
         for i in range(nhalos_for_rank):
             mah = mahs_for_rank[i, :]
-            fit_results = cfh.diffmah_fitter(tarr, mah)
+            fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
             outline = cfh.get_outline(fit_results)
             fout.write(outline)
 
-- 
2.43.0


From 84343a2a976f2c2ab093174650dde4d914e10356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 13/16] fix: fitting scripts failed to collate a rank that fit
 a single halo

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py        | 2 +-
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py     | 2 +-
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py   | 2 +-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..e1e5c71 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -114,7 +114,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..461cb27 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -119,7 +119,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c5b3a2f..40de6d3 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -131,7 +131,7 @@ if __name__ == "__main__":
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
-                    fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index e44153a..8971a44 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -134,7 +134,7 @@ if __name__ == "__main__":
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
-                    fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 9cddb5d..24db495 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -95,7 +95,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 26adba53e6b3e00efa7b26eec9999a0d2c98f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 14/16] fix: SMDPL tabulation kept halos flagged as not fit by
 diffmah_fitter

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 603408a..0f0732c 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -179,7 +179,7 @@ def load_diffmah_subvolume(
     halocat_data = load_mock_from_binaries(subvols, sfhcat_drn, galprops)
 
     # throw out halos with a bad fit
-    msk = diffmah_data["loss"] != -1
+    msk = diffmah_data["loss"] >= 0  # no-fit fill values are negative
     mah_params = DEFAULT_MAH_PARAMS._make(
         [diffmah_data[key][msk] for key in DEFAULT_MAH_PARAMS._fields]
     )
-- 
2.43.0


From 60a6cc411fd2a4d3c3513cb59991c1cc3e7fd0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:48 +0000
Subject: [PATCH 15/16] fix: jax_adam_wrapper flagged fits that reached tol (or
 a loss of zero) as cut short by NaN

---
 diffmah/fitting_helpers/fit_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..731db70 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -93,12 +93,13 @@ def jax_adam_wrapper(
     else:
         p0 = params_init
 
-    if loss_init > tol:
+    if loss_init >= tol:
         fit_results = _jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
+    reached_tol = fit_results[1] < tol
+    if len(fit_results[2]) < n_step and not reached_tol:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 0c4d18de58985511d767908bc519cc75027676aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:24 +0000
Subject: [PATCH 16/16] fix: fitting scripts failed to collate a rank that had
 no halo to fit

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py | 1 +
 .../fitting_scripts/galacticus_diffmah_fitter_script.py  | 9 +++++----
 .../hacc_discovery_sims_diffmah_fitter_script.py         | 1 +
 .../hacc_lastjourney_diffmah_fitter_script.py            | 1 +
 scripts/fitting_scripts/tng_diffmah_fitter_script.py     | 1 +
 5 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index e1e5c71..a643d3a 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -115,6 +115,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            fit_data = fit_data.reshape((-1, len(cfh.HEADER_HALO_ID[1:].split())))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 461cb27..7de4432 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -58,9 +58,9 @@ if __name__ == "__main__":
 
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
-    indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    indx_per_rank = np.array_split(_a, nranks)
+    istart = sum([len(indx) for indx in indx_per_rank[:rank]])
+    iend = istart + len(indx_per_rank[rank])
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +73,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = np.max([t[-1] for t in times_for_rank], initial=0.0)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
@@ -120,6 +120,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 40de6d3..9fefbce 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -132,6 +132,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 8971a44..b4d0cc4 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -135,6 +135,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 24db495..635b639 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -96,6 +96,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0

