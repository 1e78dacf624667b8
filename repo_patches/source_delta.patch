From fc3db94f775ca2cfa766f9e212ad528c39ddca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 01/85] fix: process every column once and in order when
 distributing qc in chunks

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..f018ebc 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -543,16 +543,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 2bca2f2d3e8980229e5c7da727d556dd7e379ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 02/85] fix: do not loop forever distributing qc in cloudy
 cells without condensate

---
 emc2/simulator/subcolumn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f018ebc..bb081fd 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -753,6 +753,8 @@ def _allocate_precip_sub_col(tt, cond, N_columns, data_frac, PF_val,
 def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub, q_ic_mean):
     q_profs = np.zeros((N_columns, q_ic_mean.shape[1]), dtype=float)
     for j in range(q_ic_mean.shape[1]):
+        if q_ic_mean[tt, j] <= 0:  # no condensate to distribute
+            continue
         hyd_in_sub_loc = np.where(sub_data_frac[:, tt, j])[0]
         if tot_hyd_in_sub[tt, j] == 1:
             q_profs[hyd_in_sub_loc, j] = q_ic_mean[tt, j]
-- 
2.43.0


From dec51ddc1b70c4ca8349145fd331921a0525b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 03/85] fix: do not accumulate stratiform lidar totals over
 repeated microphysics calculations

---
 emc2/simulator/lidar_moments.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..3f02d3d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,13 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    for var_name in ["sub_col_beta_p_tot_strat", "sub_col_alpha_p_tot_strat", "sub_col_OD_tot_strat"]:
+        model.ds[var_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 53685630d0c4273641f24fe49140fd7f9427d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 04/85] fix: do not accumulate stratiform reflectivity over
 repeated microphysics calculations

---
 emc2/simulator/radar_moments.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..ce6a81f 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,19 +539,14 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    for var_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
+        model.ds[var_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-- 
2.43.0


From 632c8bed5a19b78ae63099d53ce32e6e5e6aaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 05/85] fix: attenuate microphysics-logic reflectivity by every
 hydrometeor class, not only the last

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index ce6a81f..dcc099d 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
     for var_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
         model.ds[var_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
@@ -656,7 +657,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -699,7 +700,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From 6f349033f20018f12c0c554f4873de77a195f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 06/85] fix: keep the Doppler moment sums of classes processed
 before cl

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index dcc099d..6df9726 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -653,9 +653,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -800,7 +800,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From b52da310e41096d82e36f0ad3db4edc98ac527db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 07/85] fix: use each class's own air-density velocity
 correction in the total spectral width

---
 emc2/simulator/radar_moments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 6df9726..9cdeb2a 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -769,6 +769,10 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)  # by default, no correction is applied
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From a556b2f9ceb19453f5b01362157a60607682a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 08/85] fix: keep the liquid water content of every class in
 empirical radar attenuation

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cdeb2a..5ac6b65 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From abaa8a182b9f77af74232abda216c28f4f39fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 09/85] fix: let the empirical lidar calculation handle liquid
 classes

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 3f02d3d..1c003f0 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -256,7 +256,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 22659435695c6ef43821fcd0b17095f04b3f55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 10/85] fix: honour the LDR_per_hyd argument of
 calc_LDR_and_ext

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 1c003f0..d7f547c 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -108,6 +108,7 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
     if LDR_per_hyd is None:
         LDR_per_hyd = model.LDR_per_hyd
+    LDR_per_hyd = {key: getattr(val, "magnitude", val) for key, val in LDR_per_hyd.items()}
 
     if OD_from_sfc:
         OD_str = ("layer base", "from surface")
@@ -122,7 +123,7 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * LDR_per_hyd[hyd_type]
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From 5092981d1f94117a3856be72d05d307626a5aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 11/85] fix: honour the ref_rng keyword of make_simulated_data

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From c82f946e38aa4fcd3b7f0bb47d1648207c3bcf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 12/85] fix: accumulate the molecular optical depth from the
 side the lidar looks from

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index d7f547c..f3d7bc4 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -800,7 +800,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From a829fe3165b283d3baa8c9225a75462608be844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 13/85] fix: do not lose bulk radar attenuation where a
 hydrometeor class is absent

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 5ac6b65..4a7900c 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,7 +443,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
-- 
2.43.0


From 6eea039d1006ddf80a5fc569a67098f02847e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 14/85] fix: use a positive thickness for the uppermost layer
 in bulk calculations

---
 emc2/simulator/lidar_moments.py | 4 ++--
 emc2/simulator/radar_moments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index f3d7bc4..5b31797 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -363,9 +363,9 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     model.ds['sub_col_OD_tot_%s' % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
-    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) / instrument.g,
                       (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    dz = np.tile(np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]), (model.num_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 4a7900c..67bcb0a 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -306,10 +306,10 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
     hyd_ext = np.zeros(Dims)
     rhoa_dz = np.tile(
-        np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+        np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) / instrument.g,
         (n_subcolumns, 1, 1))
     dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+        np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]), (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From a88aa31a8ecee440740f57ba641a8f384d1644b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 15/85] fix: apply the O2 line-width pressure limits in hPa
 whatever the input unit

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..baaaa30 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -71,8 +71,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From f12fc322b95432a2e5e5f3d5ee3a33c3583b0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 16/85] fix: let a single convective subcolumn be generated

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index bb081fd..89cf71d 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]].values,
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From 8305f995d96a2cd4c1e05d648164205d34b5a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 17/85] fix: let stratiform subcolumns without convection use
 the model's number of subcolumns

---
 emc2/simulator/subcolumn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 89cf71d..67826c8 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -143,6 +143,8 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
     else:
         if model.num_subcolumns == 0:
             model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
+        if N_columns is None:
+            N_columns = model.num_subcolumns
         conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
                               dtype=bool)
     subcolumn_dims = ("subcolumn", *model.ds[model.strat_frac_names_for_rad["cl"]].dims)
-- 
2.43.0


From 57b18d44d152d1ea1d1618b81253425e31f136fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 18/85] fix: report missing cloud subcolumns with the intended
 KeyError

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 67826c8..30e8d44 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -348,13 +348,13 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     else:
         full_overcast_pl_pi = 0
         if in_prof_cloud_name_liq not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
-                           "generated the cloud particle subcolumns before running this routine." %
+            raise KeyError(("%s is not a variable in the model object. Please ensure that you have " +
+                            "generated the cloud particle subcolumns before running this routine.") %
                            in_prof_cloud_name_liq)
 
         if in_prof_cloud_name_ice not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
-                           "generated the cloud particle subcolumns before running this routine." %
+            raise KeyError(("%s is not a variable in the model object. Please ensure that you have " +
+                            "generated the cloud particle subcolumns before running this routine.") %
                            in_prof_cloud_name_ice)
 
         for i in range(len(data_frac)):
-- 
2.43.0


From 473de6f868c77b1f52d2f2005ebdb89c5bb53bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 19/85] fix: keep single-phase cloud cover below mixed-phase
 levels

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 30e8d44..2c63dad 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -634,8 +634,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From 96ae2a4102b7400b7c77a2383bd1a33d25395706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 20/85] fix: evaluate the gaseous attenuation lines in GHz with
 the full line shape

---
 emc2/simulator/attenuation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index baaaa30..1ec81ee 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -61,22 +61,23 @@ def calc_radar_atm_attenuation(instrument, model):
 
     column_ds = model.ds
 
+    freq = instrument.freq / 1e9  # the line parameters below are given in GHz
     rho_wv = column_ds[q_field] * 1e3 * (p_temp * 1e2) / (instrument.R_d * t_temp)
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        ((three_hundred_t) * np.exp(-644 / t_temp) /
+         ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[p_temp >= 333] = 0.59
     gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From aa37f2a2d568f81954bad47aa76f97c556e1d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 21/85] fix: convert heights to meters before computing Ze_min

---
 emc2/simulator/attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 1ec81ee..03a60bb 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,8 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_temp = model.ds[model.z_field].values * getattr(ureg, model.ds[model.z_field].attrs["units"])
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_temp.to('meter').magnitude) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From aea436b9132cf9c3b2e7802ab311a04f79157729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 22/85] fix: compare temperatures with the COSP phase limits in
 kelvin

---
 emc2/simulator/classification.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..8fba029 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -240,6 +241,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
+    t_values = quantity(model.ds[model.T_field].values, model.ds[model.T_field].attrs["units"]).to("kelvin").magnitude
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
@@ -301,10 +303,10 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+        phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                      (model.num_subcolumns, 1, 1)) > 273.15,
                               phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+        phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                      (model.num_subcolumns, 1, 1)) < 233.15,
                               phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
@@ -363,10 +365,10 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+    phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                  (model.num_subcolumns, 1, 1)) > 273.15,
                           phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+    phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                  (model.num_subcolumns, 1, 1)) < 233.15,
                           phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
-- 
2.43.0


From b809098fe0a4d82dd6c96c018a036bc2cde2cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 23/85] fix: do not lose bulk radar attenuation where an
 effective radius is undefined

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 67bcb0a..da06187 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -449,7 +449,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.nan_to_num(np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From 11e5323683b2c22bed7dfa9c1eb860bfcae33a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 24/85] fix: let P3 radar microphysics calculations be repeated
 with the same model

---
 emc2/simulator/radar_moments.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index da06187..8386b2b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -607,13 +607,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 5f49d35a2078f1d56f0e015f9d325783094e93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 25/85] fix: let P3 lidar microphysics calculations be repeated
 with the same model

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5b31797..d023acf 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -631,12 +631,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }
             calc_kws = i_calc_kws
         else:
             calc_kws = None
-- 
2.43.0


From ee2e59dbc3312777d56bd40fab6cd208e2dab927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 26/85] fix: make the NSSL fall speeds usable in the radar
 microphysics calculations

---
 emc2/simulator/radar_moments.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 8386b2b..e000392 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -587,12 +587,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
         num_subcolumns = model.num_subcolumns
         rhoe = None
         if model.mcphys_scheme == "nssl":
-            rhoe = model.Rho_hyd[hyd_type]
-            if rhoe == 'variable':
+            calc_kws = None
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                 v_tmp = 'variable'
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -755,12 +755,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
             if model.mcphys_scheme == "nssl":
-                rhoe = model.Rho_hyd[hyd_type]
-                if rhoe == 'variable':
+                calc_kws = None
+                if model.Rho_hyd[hyd_type] == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                     v_tmp = 'variable'
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1068,9 +1068,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
-            v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "p3"]:  # power-law velocity schemes for liquid
+            v_tmp = (vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]).magnitude
+        elif mcphys_scheme.lower() in ["nssl"]:
+            v_tmp = calc_velocity_nssl(p_diam, None, hyd_type)
+        v_tmp = -v_tmp.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1119,7 +1121,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1237,7 +1239,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 35dde20b9f9567e85f2c33192f60b1f6ede7a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 27/85] fix: allow P3 radar microphysics calculations for ice
 alone

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e000392..103755e 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -834,7 +834,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From b5d370589c005c59a521d5ae4f5b3bf546e9c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 28/85] fix: compute the lidar depolarization for any subset of
 the classes

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index d023acf..d347cf8 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -115,8 +115,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From 01c6f477c7348bbcad8dfe780fd1c47a06ce2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 29/85] fix: size parameters of rain do not depend on which
 classes come before it

---
 emc2/simulator/lidar_moments.py | 8 +++++---
 emc2/simulator/radar_moments.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index d347cf8..1fdf1b7 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -372,10 +372,12 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = model.Rho_hyd[hyd_type]  # bulk water
             re_array = np.tile(model.ds[re_fields[hyd_type]], (model.num_subcolumns, 1, 1))
             if model.lambda_field is not None:  # assuming my and lambda can be provided only for liq hydrometeors
-                if not model.lambda_field[hyd_type] is None:
+                # classes without PSD parameters of their own use those of cloud liquid
+                psd_type = "cl" if model.lambda_field[hyd_type] is None else hyd_type
+                if not model.lambda_field[psd_type] is None:
                     lambda_array = np.tile(
-                        model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
-                    mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
+                        model.ds[model.lambda_field[psd_type]].values, (model.num_subcolumns, 1, 1))
+                    mu_array = np.tile(model.ds[model.mu_field[psd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             if instrument.instrument_str not in model.interpobj["bulk"].keys():
                 model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 103755e..d02607c 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -317,10 +317,12 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             rho_b = model.Rho_hyd[hyd_type]  # bulk water
             re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             if model.lambda_field is not None:  # assuming my and lambda can be provided only for liq hydrometeors
-                if not model.lambda_field[hyd_type] is None:
+                # classes without PSD parameters of their own use those of cloud liquid
+                psd_type = "cl" if model.lambda_field[hyd_type] is None else hyd_type
+                if not model.lambda_field[psd_type] is None:
                     lambda_array = np.tile(
-                        model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
-                    mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
+                        model.ds[model.lambda_field[psd_type]].values, (model.num_subcolumns, 1, 1))
+                    mu_array = np.tile(model.ds[model.mu_field[psd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             if instrument.instrument_str not in model.interpobj["bulk"].keys():
                 model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
-- 
2.43.0


From 9b89dfe6c511dc4e8c0cdab8d5de34025b736337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 30/85] fix: clear the hydrometeor extinction of a cloud class
 together with its other subcolumn fields

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..073a826 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -318,7 +318,7 @@ class Model():
         vars_to_drop = []
         for key in self.ds.keys():
             if np.logical_and(cloud_class in key,
-                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask"]])):
+                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask", "hyd_ext"]])):
                 vars_to_drop.append(key)
         self.ds = self.ds.drop_vars(vars_to_drop)
 
-- 
2.43.0


From 30dc6ebb6bf643877459a3de0572985045b85817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 31/85] fix: regrid profiles to grids that reach above the
 model top

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..a2bbea9 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
-- 
2.43.0


From 2bed731dcb46d723c6a904c4ae3864c1c2e77a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 32/85] fix: do not skip the lowest source layer in vertical
 regridding

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index a2bbea9..1a8b0e1 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < 0:
+                lev = -1
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From 3adfba983beb7714cbc8be4acc6e1e037fca554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 33/85] fix: half levels are the bottoms of the layers, as the
 vertical regridding expects

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 1a8b0e1..8f923e7 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,8 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    zhalf[1:] = zfull[:-1] + np.diff(zfull) / 2.  # layer bottoms, as used in the vertical regridding
+    zhalf[0] = zfull[0] - np.diff(zfull[:2]).sum() / 2.
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From a583925d8e843a0aa968c8409b378bb9cf75a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 34/85] fix: the scattering ratio is undefined below ground and
 where the signal is undefined

---
 emc2/statistics_LLNL/statistical_aggregation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 8f923e7..04eb1cf 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -181,9 +181,10 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    # below ground or with undefined source layers (backscatter is never negative)
+    loc_atbtot = np.where(Regrided_atb_total_reorder_4D < 0.)
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D < 0.)
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
-- 
2.43.0


From 1718a1be926c3fc33edd947961a56f422a7692a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 35/85] fix: average reflectivity in linear units when
 regridding, undefined where there is none or below ground

---
 emc2/statistics_LLNL/statistical_aggregation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 04eb1cf..21cbb63 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -346,6 +346,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_GROUND = -1.0E20  # Flag for below ground results
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -362,13 +363,13 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_ze_att_total_3D = COSP_CHANGE_VERTICAL_GRID(
             Npoints, Ncolumns, Nlevels, zfull,
             zhalf, y_input_zeatttot, Nglevels,
-            newgrid_bot, newgrid_top, lunits=False)
+            newgrid_bot, newgrid_top, lunits=True)
 
         # need to covert to right dimension order
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D <= R_GROUND)
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From b26bc22a2474ee0157e3cd8ebdf513b948d49343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 36/85] fix: save the reflectivity bins together with the
 diagrams

---
 emc2/statistics_LLNL/statistical_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..2987f72 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -31,7 +31,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
     """
 
     model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add["cosp_dbz"] = ("cosp_dbz", kazr_DBZE_BINS_ground)
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From a5e007d9b4ec05a150f28b30499d50e87c0d607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 37/85] fix: empirical lidar ice extinction takes ice water
 content in g m^-3

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 1fdf1b7..5186d2e 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -261,13 +261,13 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-            # Heymsfield et al. (2014)
+            # Heymsfield et al. (2014), ice water content in g m^-3
             a = 0.00532 * (t_values + 90) ** 2.55
             b = 1.31 * np.exp(0.0047 * t_values)
             a = np.tile(a, (model.num_subcolumns, 1, 1))
             b = np.tile(b, (model.num_subcolumns, 1, 1))
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (WC / a) ** (1 / b), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
+                (WC * 1e3 / a) ** (1 / b), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
         model.ds["sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)] = \
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] / \
-- 
2.43.0


From d7123dcf53d0376019d7b58087b0f620a44755ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 38/85] fix: mass extinction cross section of air in m^2 kg^-1

---
 emc2/simulator/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 03a60bb..def2117 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -147,7 +147,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
     sigma = sigma * 1e-4
     N_s = N_s / 1e-6
     beta = beta / 1e-2
-    kappa = kappa * 1e-3 / 1e-6
+    kappa = kappa * 1e-4 / 1e-3
     sigma_180 = sigma_180 * 1e-4
     sigma_180_vol = sigma_180_vol / 1e-2
 
@@ -187,8 +187,8 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
     model.ds["sigma"].attrs["units"] = r"$m^2$"
 
     model.ds["kappa"] = xr.DataArray(kappa, dims=my_dims)
-    model.ds["kappa"].attrs["long_name"] = "Mass extinction cross section per molecule"
-    model.ds["kappa"].attrs["units"] = r"$kg\ m^{-3}$"
+    model.ds["kappa"].attrs["long_name"] = "Mass extinction cross section"
+    model.ds["kappa"].attrs["units"] = r"$m^2\ kg^{-1}$"
 
     model.ds["N_s"] = xr.DataArray(N_s, dims=my_dims)
     model.ds["N_s"].attrs["long_name"] = "Number density profile"
-- 
2.43.0


From aa362a36af76ad0324ec3553c16bf32b20b2c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 39/85] fix: size distributions hold the water mass per volume
 of air, as the number concentration

---
 emc2/simulator/psd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c310935..4b44111 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -112,6 +112,9 @@ def calc_mu_lambda(model, hyd_type="cl",
         q_name = "conv_q_subcolumns_%s" % hyd_type
     q_use = column_ds[q_name].values
     N_use = column_ds[N_name].values
+    if "rho_a" in column_ds:  # the number concentration is per volume, the mixing ratio per mass of air
+        q_use = q_use * column_ds["rho_a"].transpose(
+            *[x for x in column_ds[q_name].dims if x != "subcolumn"]).values
     
     if model.Rho_hyd[hyd_type] == 'variable':    
         Rho_hyd = model.ds[model.variable_density[hyd_type]].values
-- 
2.43.0


From b53ce145dc5e16858c0f09478b71a529622fbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 40/85] fix: NSSL drag coefficient varies over the range of
 densities instead of the last kg m^-3

---
 emc2/simulator/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index 4b44111..acc4802 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -24,13 +24,13 @@ def calc_velocity_nssl(dmax, rhoe, hyd_type):
         return 10 * (1 - np.exp(-516.575 * dmax))
     if hyd_type.lower() == "gr":
         cd = np.fmax(0.45, np.fmin(1.2,
-                0.45 + 0.55 * (800 - np.fmax(170, np.fmin(800, rhoe)))))
+                0.45 + 0.55 * (800 - np.fmax(170, np.fmin(800, rhoe))) / (800 - 170)))
         vt = np.sqrt(4.0 * rhoe * 9.81 / (3.0 * cd * rhoair_800mb)) \
             * np.sqrt(dmax)
         return vt
     elif hyd_type.lower() == "ha":
         cd = np.fmax(0.45, np.fmin(1.2,
-                0.45 + 0.55 * (800 - np.fmax(500, np.fmin(800, rhoe)))))
+                0.45 + 0.55 * (800 - np.fmax(500, np.fmin(800, rhoe))) / (800 - 500)))
         vt = np.sqrt(4.0 * rhoe * 9.81 / (3.0 * cd * rhoair_800mb)) \
             * np.sqrt(dmax)
         return vt
-- 
2.43.0


From c6abbec497d89647d864d81f9c1c581cd087eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 41/85] fix: no infinite mass or number in a single subcolumn
 without cloud fraction

---
 emc2/simulator/subcolumn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 2c63dad..76451fd 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -515,12 +515,12 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
         print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns q (and N micro logic) "
               f"fields for {hyd_type} equal to grid-cell in-cloud mean")
         model.ds[q_name] = xr.DataArray(
-            np.tile(np.where(q_array > q_trunc_thresh, q_array / data_frac, 0), (1, 1, 1)),
+            np.tile(np.where(np.logical_and(q_array > q_trunc_thresh, data_frac > 0), q_array / data_frac, 0), (1, 1, 1)),
             dims=model.ds[frac_fieldname].dims)
         if not is_conv:
             model.ds[n_name] = xr.DataArray(
-                np.tile(model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac, (1, 1, 1)),
-                                            dims=model.ds[frac_fieldname].dims)
+                np.tile(np.where(data_frac > 0, model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac, 0),
+                        (1, 1, 1)), dims=model.ds[frac_fieldname].dims)
     else:
         if qc_flag:
 
-- 
2.43.0


From 1e48eb5a0c137a82c01691b03998749d92b6d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 42/85] fix: bulk lidar optics of fluffy ice with a variable
 density

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5186d2e..2f8ea59 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -420,10 +420,11 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         i_calc_kws["Fr_in"], i_calc_kws["rho_r_in"], i_calc_kws["q_norm_in"]))
                     re_array = np.tile(re_interped * rhoi_eff_interped / rho_b, (model.num_subcolumns, 1, 1))
         else:
-            rho_b = instrument.rho_i  # bulk ice
-            rho_hyd = model.Rho_hyd[hyd_type]
-            if rho_hyd == 'variable':
+            rho_b = instrument.rho_i.magnitude  # bulk ice
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rho_hyd = model.ds[model.variable_density[hyd_type]].values
+            else:
+                rho_hyd = model.Rho_hyd[hyd_type].magnitude
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From e20ff871b057080d6ec3609f98067f1ef5c37b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 43/85] fix: effective radius fields of the rimed ice class of
 DHARMA

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 073a826..196c13d 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1465,8 +1465,8 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
-- 
2.43.0


From 78bb7a2f148fed5b8c213d58a95678e7588f513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 44/85] fix: keep the times of DHARMA output so that it can be
 cropped

---
 emc2/core/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 196c13d..a6123cc 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1480,6 +1480,8 @@ class DHARMA(Model):
         else:
             self.ds = xr.open_dataset(file_path)
             for variable in self.ds.variables.keys():
+                if np.issubdtype(self.ds[variable].dtype, np.datetime64):
+                    continue  # times are needed for cropping
                 my_attrs = self.ds[variable].attrs
                 self.ds[variable] = self.ds[variable].astype('float64')
                 self.ds[variable].attrs = my_attrs
-- 
2.43.0


From 6545a6c8283025769667101d55fa5ea1697433f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 45/85] fix: accept time ranges given as tuples or lists

---
 emc2/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index a6123cc..1a61b45 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -686,7 +686,7 @@ class ModelE(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
@@ -830,7 +830,7 @@ class E3SMv1(Model):
 
             # crop specific model output time range (if requested)
             if time_range is not None:
-                if np.issubdtype(time_range.dtype, np.datetime64):
+                if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                     if time_dim == "ncol":
                         super()._crop_time_range(time_range, alter_coord="time")
                     else:
@@ -1492,7 +1492,7 @@ class DHARMA(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
-- 
2.43.0


From b04bf55a4200682a793ed6d0d455e080e91b92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 46/85] fix: crop WRF output by its times, which were already
 dropped

---
 emc2/core/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 1a61b45..3205542 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1373,7 +1373,9 @@ class WRF(Model):
         
         # crop specific model output time range (if requested)
         if time_range is not None:
-            super()._crop_time_range(time_range)
+            self.ds = self.ds.assign_coords(XTIME=(self.time_dim, ds["XTIME"].values))
+            super()._crop_time_range(time_range, alter_coord="XTIME")
+            self.ds = self.ds.drop_vars("XTIME")
 
         # stack dimensions in the case of a regional output or squeeze lat/lon dims if exist and len==1
         super().check_and_stack_time_lat_lon(file_path=file_path)
-- 
2.43.0


From b38416f48550970638807d5cdd78dff1086cc9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 47/85] fix: a WRF bounding box includes the row and column of
 its upper edges

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 3205542..4faca02 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -231,8 +231,8 @@ class Model():
         bounding_box_ind[3] = np.argmin(
                np.abs(bounding_box[3] - np.squeeze(XLONG_max.values)))
         input_dict = {}
-        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2])
-        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3])
+        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2] + 1)
+        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3] + 1)
         self.ds = self.ds.isel(input_dict)
 
     def _crop_bounding_box_x_y(self, bounding_box):
-- 
2.43.0


From e346dac1d906419e7b2da0668406949a492dcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 48/85] fix: P3 ice of an instrument is not computed with the
 tables of another one of the same name

---
 emc2/simulator/lidar_moments.py | 54 ++++++++++++++++-----------------
 emc2/simulator/radar_moments.py | 54 ++++++++++++++++-----------------
 2 files changed, 52 insertions(+), 56 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 2f8ea59..bc848a1 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -379,19 +379,18 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         model.ds[model.lambda_field[psd_type]].values, (model.num_subcolumns, 1, 1))
                     mu_array = np.tile(model.ds[model.mu_field[psd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
-            if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
-                scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
-                for key in scat_vars:
-                    model.interpobj["bulk"][instrument.instrument_str][key] = RegularGridInterpolator(
-                        (instrument.scat_table['p3_ice']["Fr"].values,
-                         instrument.scat_table['p3_ice']["rho_r"].values,
-                         instrument.scat_table['p3_ice']["q_norm"].values),
-                        instrument.scat_table['p3_ice'][key].values, bounds_error=False)
-            i_calc_kws = {"Q_back_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_bulk"],
-                          "Q_ext_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_bulk"],
-                          "Q_back_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_Mie_bulk"],
-                          "Q_ext_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_Mie_bulk"],
+            scat_interp = {}  # gen scattering interp objects of this instrument
+            scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
+            for key in scat_vars:
+                scat_interp[key] = RegularGridInterpolator(
+                    (instrument.scat_table['p3_ice']["Fr"].values,
+                     instrument.scat_table['p3_ice']["rho_r"].values,
+                     instrument.scat_table['p3_ice']["q_norm"].values),
+                    instrument.scat_table['p3_ice'][key].values, bounds_error=False)
+            i_calc_kws = {"Q_back_bulk": scat_interp["Q_back_bulk"],
+                          "Q_ext_bulk": scat_interp["Q_ext_bulk"],
+                          "Q_back_Mie_bulk": scat_interp["Q_back_Mie_bulk"],
+                          "Q_ext_Mie_bulk": scat_interp["Q_ext_Mie_bulk"],
                           "Fr_in": model.ds["Fr"].values,
                           "rho_r_in": model.ds["rho_r"].values,
                           "q_norm_in": model.ds["qi_norm"].values,
@@ -621,21 +620,20 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
             beta_p = instrument.mie_table[hyd_type]["beta_p"].values
             alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
         if (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
-            if instrument.instrument_str not in model.interpobj["single"].keys():
-                model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
-                scat_vars = ["beta_p", "alpha_p"]
-                if model.p3_kws["use_hybrid_scat"] > 0:
-                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
-                else:
-                    scat_lut_vars = ["beta_p", "alpha_p"]
-                for lut_key, key in zip(scat_lut_vars, scat_vars):
-                    model.interpobj["single"][instrument.instrument_str][key] = RegularGridInterpolator(
-                        (instrument.scat_table['p3_ice']["Fr"].values,
-                         instrument.scat_table['p3_ice']["rho_r"].values,
-                         instrument.scat_table['p3_ice']["p_diam"].values),
-                        instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+            scat_interp = {}  # gen scattering interp objects of this instrument
+            scat_vars = ["beta_p", "alpha_p"]
+            if model.p3_kws["use_hybrid_scat"] > 0:
+                scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
+            else:
+                scat_lut_vars = ["beta_p", "alpha_p"]
+            for lut_key, key in zip(scat_lut_vars, scat_vars):
+                scat_interp[key] = RegularGridInterpolator(
+                    (instrument.scat_table['p3_ice']["Fr"].values,
+                     instrument.scat_table['p3_ice']["rho_r"].values,
+                     instrument.scat_table['p3_ice']["p_diam"].values),
+                    instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
+            i_calc_kws = {"beta_p": scat_interp["beta_p"],
+                          "alpha_p": scat_interp["alpha_p"],
                           "Fr_in": model.ds["Fr"].values,
                           "rho_r_in": model.ds["rho_r"].values,
                           "mie_for_ice": mie_for_ice,
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index d02607c..fe4e4a7 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -324,19 +324,18 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                         model.ds[model.lambda_field[psd_type]].values, (model.num_subcolumns, 1, 1))
                     mu_array = np.tile(model.ds[model.mu_field[psd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
-            if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
-                scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
-                for key in scat_vars:
-                    model.interpobj["bulk"][instrument.instrument_str][key] = RegularGridInterpolator(
-                        (instrument.scat_table['p3_ice']["Fr"].values,
-                         instrument.scat_table['p3_ice']["rho_r"].values,
-                         instrument.scat_table['p3_ice']["q_norm"].values),
-                        instrument.scat_table['p3_ice'][key].values, bounds_error=False)
-            i_calc_kws = {"Q_back_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_bulk"],
-                          "Q_ext_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_bulk"],
-                          "Q_back_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_Mie_bulk"],
-                          "Q_ext_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_Mie_bulk"],
+            scat_interp = {}  # gen scattering interp objects of this instrument
+            scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
+            for key in scat_vars:
+                scat_interp[key] = RegularGridInterpolator(
+                    (instrument.scat_table['p3_ice']["Fr"].values,
+                     instrument.scat_table['p3_ice']["rho_r"].values,
+                     instrument.scat_table['p3_ice']["q_norm"].values),
+                    instrument.scat_table['p3_ice'][key].values, bounds_error=False)
+            i_calc_kws = {"Q_back_bulk": scat_interp["Q_back_bulk"],
+                          "Q_ext_bulk": scat_interp["Q_ext_bulk"],
+                          "Q_back_Mie_bulk": scat_interp["Q_back_Mie_bulk"],
+                          "Q_ext_Mie_bulk": scat_interp["Q_ext_Mie_bulk"],
                           "Fr_in": model.ds["Fr"].values,
                           "rho_r_in": model.ds["rho_r"].values,
                           "q_norm_in": model.ds["qi_norm"].values,
@@ -596,22 +595,21 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
             else:
                 v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
-            if instrument.instrument_str not in model.interpobj["single"].keys():
-                model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
-                scat_vars = ["beta_p", "alpha_p"]
-                if model.p3_kws["use_hybrid_scat"] > 0:
-                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
-                else:
-                    scat_lut_vars = ["beta_p", "alpha_p"]
-                for lut_key, key in zip(scat_lut_vars, scat_vars):
-                    model.interpobj["single"][instrument.instrument_str][key] = RegularGridInterpolator(
-                        (instrument.scat_table['p3_ice']["Fr"].values,
-                         instrument.scat_table['p3_ice']["rho_r"].values,
-                         instrument.scat_table['p3_ice']["p_diam"].values),
-                        instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
+            scat_interp = {}  # gen scattering interp objects of this instrument
+            scat_vars = ["beta_p", "alpha_p"]
+            if model.p3_kws["use_hybrid_scat"] > 0:
+                scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
+            else:
+                scat_lut_vars = ["beta_p", "alpha_p"]
+            for lut_key, key in zip(scat_lut_vars, scat_vars):
+                scat_interp[key] = RegularGridInterpolator(
+                    (instrument.scat_table['p3_ice']["Fr"].values,
+                     instrument.scat_table['p3_ice']["rho_r"].values,
+                     instrument.scat_table['p3_ice']["p_diam"].values),
+                    instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
             i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "beta_p": scat_interp["beta_p"],
+                          "alpha_p": scat_interp["alpha_p"],
                           "Fr_in": model.ds["Fr"].values,
                           "rho_r_in": model.ds["rho_r"].values,
                           "mie_for_ice": mie_for_ice,
-- 
2.43.0


From 634c3efb44c3312eca3402008e105723807c011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 49/85] fix: logarithmic colour scale without explicit limits

---
 emc2/plotting/subcol_display.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..8d01f40 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -459,12 +459,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -588,12 +584,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -714,12 +706,8 @@ class SubcolumnDisplay(Display):
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -1154,12 +1142,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                     **kwargs)
         else:
-- 
2.43.0


From 9b4e1d789566096390dd39775ffba494da99bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 50/85] fix: default titles of time series whose time axis is
 not given as dates

---
 emc2/plotting/subcol_display.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 8d01f40..76f9588 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -266,6 +266,24 @@ class SubcolumnDisplay(Display):
                 axis_label = variable
         return axis_label
 
+    @staticmethod
+    def _time_string(time):
+        """
+        Time step as a string (also for time axes that are not given as dates).
+
+        Parameters
+        ----------
+        time: np.datetime64 or scalar
+            The time step.
+
+        Returns
+        -------
+        str
+        """
+        if isinstance(time, np.datetime64):
+            return np.datetime_as_string(time)
+        return str(time)
+
     def set_yrng(self, subplot_index, y_range):
         """
         Set the Y axes limits of the subplot
@@ -481,7 +499,7 @@ class SubcolumnDisplay(Display):
 
         if title is None:
             self.axes[subplot_index].set_title(self.model.model_name + ' ' +
-                                               np.datetime_as_string(self.model.ds[x_variable][0].values))
+                                               self._time_string(self.model.ds[x_variable].values[0]))
         else:
             self.axes[subplot_index].set_title(title)
 
@@ -606,7 +624,7 @@ class SubcolumnDisplay(Display):
 
         if title is None:
             self.axes[subplot_index].set_title(instrument.instrument_str + ' ' +
-                                               np.datetime_as_string(my_ds.time[0].values))
+                                               self._time_string(my_ds.time.values[0]))
         else:
             self.axes[subplot_index].set_title(title)
 
@@ -1164,7 +1182,7 @@ class SubcolumnDisplay(Display):
 
         if title is None:
             self.axes[subplot_index].set_title(self.model.model_name + ' ' +
-                                            np.datetime_as_string(self.model.ds[x_variable][0].values))
+                                            self._time_string(self.model.ds[x_variable].values[0]))
         else:
             self.axes[subplot_index].set_title(title)
 
@@ -1259,7 +1277,7 @@ class SubcolumnDisplay(Display):
 
         if title is None:
             self.axes[subplot_index].set_title(self.model.model_name + ' ' +
-                                            np.datetime_as_string(self.model.ds[x_variable][0].values))
+                                            self._time_string(self.model.ds[x_variable].values[0]))
         else:
             self.axes[subplot_index].set_title(title)
     
@@ -1353,7 +1371,7 @@ class SubcolumnDisplay(Display):
 
         if title is None:
             self.axes[subplot_index].set_title(self.model.model_name + ' ' +
-                                            np.datetime_as_string(self.model.ds[x_variable][0].values))
+                                            self._time_string(self.model.ds[x_variable].values[0]))
         else:
             self.axes[subplot_index].set_title(title)
 
-- 
2.43.0


From 77754c923caf175904d5bf71ca1aaf3c1588bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 51/85] fix: mean profiles of a single subcolumn and time step

---
 emc2/plotting/subcol_display.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 76f9588..6bbf8d3 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -854,13 +854,13 @@ class SubcolumnDisplay(Display):
                       " are different than in the requested field " +
                       str(x_variable.shape) + " - ignoring mask")
 
+        # one row per subcolumn and/or time step
+        x_variable = x_variable.reshape(-1, np.size(y_variable))
+
         if 'Ze' in variable:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
             x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
@@ -868,10 +868,7 @@ class SubcolumnDisplay(Display):
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
             x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 x_label = 'log '
-- 
2.43.0


From c1569bba28e7f381a73f08406220bc828ac74b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 52/85] fix: time period of a mean profile given as strings

---
 emc2/plotting/subcol_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 6bbf8d3..5a8c54d 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -824,7 +824,7 @@ class SubcolumnDisplay(Display):
         x_variable = self.model.time_dim
         if time is not None:
             if np.logical_or(type(time) is tuple, type(time) is str):
-                time = np.array(time)
+                time = np.array(time, dtype=self._ds[ds_name][x_variable].dtype)
             if time.size == 1:
                 my_ds = self._ds[ds_name].sel({x_variable: time}, method='nearest')
             else:
-- 
2.43.0


From 8f0928d29a77af218ad986935e2fd9c11c31fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 53/85] fix: plot_instrument_mean_profile returns the axes

---
 emc2/plotting/subcol_display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 5a8c54d..b67c643 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1054,7 +1054,8 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_xlim(x_lim)
 
-    
+        return self.axes[subplot_index]
+
     def plot_column_input_q_timeseries(self, variable, pressure_coords=True, title=None,
                                     subplot_index=(0, ), colorbar=True, cbar_label=None,
                                     log_plot=False, Mask_array=None, hatched_mask=False,
-- 
2.43.0


From 380dd08aa06c17c03894d228983541e50db538d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 54/85] fix: the geometric standard deviation about a mean
 profile is a factor

---
 emc2/plotting/subcol_display.py | 37 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index b67c643..e20caba 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -205,6 +205,29 @@ class SubcolumnDisplay(Display):
             SD = np.nanstd(variable, axis=axis)
         return Mean, SD
 
+    @staticmethod
+    def _sd_bounds(Mean, SD, use_geom_mean=False):
+        """
+        Range of one standard deviation about the mean.
+
+        Parameters
+        ----------
+        Mean: np.ndarray
+            array of calculated mean.
+        SD: np.ndarray
+            array of calculated SD.
+        use_geom_mean: bool
+            if True, the mean and SD are geometric, that is, the SD is a factor.
+
+        Returns
+        -------
+        bounds: list of np.ndarray
+            lower and upper bound.
+        """
+        if use_geom_mean:
+            return [Mean / SD, Mean * SD]
+        return [Mean - SD, Mean + SD]
+
     @staticmethod
     def set_axis_label(ds, variable, max_long_name=20, use_prespec=True):
         """
@@ -863,13 +886,14 @@ class SubcolumnDisplay(Display):
                 x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            x_fill = np.array(10 * np.log10(self._sd_bounds(x_var, x_err, use_geom_mean)))
+            x_fill[0] = np.where(np.logical_or(use_geom_mean, x_var > x_err), x_fill[0],
+                                 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
                 x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            x_fill = np.array(self._sd_bounds(x_var, x_err, use_geom_mean))
             if log_plot:
                 x_label = 'log '
                 Xscale = 'log'
@@ -1008,13 +1032,14 @@ class SubcolumnDisplay(Display):
                 x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            x_fill = np.array(10 * np.log10(self._sd_bounds(x_var, x_err, use_geom_mean)))
+            x_fill[0] = np.where(np.logical_or(use_geom_mean, x_var > x_err), x_fill[0],
+                                 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
                 x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            x_fill = np.array(self._sd_bounds(x_var, x_err, use_geom_mean))
             if log_plot:
                 Xscale = 'log'
             else:
-- 
2.43.0


From 2a2110e772be82c48cbca3931f24e66196004728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 55/85] fix: infinite values are left out of mean profiles also
 when a mask is given

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index e20caba..b6989c7 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -867,7 +867,7 @@ class SubcolumnDisplay(Display):
             y_variable = np.nanmean(y_variable, axis=0)
 
         x_variable = my_ds[variable].squeeze().values
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         if Mask_array is not None:
             Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues
             if Mask_array.shape == x_variable.shape:
@@ -1017,7 +1017,7 @@ class SubcolumnDisplay(Display):
         else:
             time_ind = np.logical_and(my_ds.time >= time_range[0], my_ds.time < time_range[1])
             x_variable = my_ds[variable].isel(time=time_ind)
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         if Mask_array is not None:
             if Mask_array.shape == x_variable.shape:
                 x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
-- 
2.43.0


From 1e75e139b7c4902f9c62bfa5975b4aeef96b8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 56/85] fix: plots of regridded fields leave the given array as
 it is, also for one time step

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index b6989c7..d1d9630 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1276,7 +1276,7 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
+        var_array = np.array(var_array_3D[:,:,col_index], dtype=float).T
         var_array[var_array<=0]=np.nan  # can be with blue 
                         
         if y_range is not None:
@@ -1368,7 +1368,7 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
+        var_array = np.array(var_array_4D[subcol_index,:,:,col_index], dtype=float).T
         var_array[var_array==0]=np.nan
                 
         if y_range is not None:
-- 
2.43.0


From c411a10248eb0f594750a32ad51ac60f2aa70d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 57/85] fix: another location of a region can be displayed
 after the first one

---
 emc2/plotting/subcol_display.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index d1d9630..077d3c2 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -79,7 +79,7 @@ class SubcolumnDisplay(Display):
             model_c = model
         self.model = model_c
         self._crop_lat_lon(model_c, lat_sel, lon_sel, deep=True)
-        super().__init__(model_c.ds, ds_name=ds_name, **kwargs)
+        super().__init__(self.model.ds, ds_name=ds_name, **kwargs)
 
     def _crop_lat_lon(self, model, lat_sel=None, lon_sel=None, deep=False):
         """
@@ -135,23 +135,26 @@ class SubcolumnDisplay(Display):
         """
         if not np.logical_and(lat_sel is None, lon_sel is None):
             self.cropped_lat_lon = [lat_sel, lon_sel]
-            if np.any([x in self.model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
-                if deep:
-                    self.model.ds = copy.deepcopy(model.ds)
-                if self.model.lat_dim in self.model.ds.dims:
-                    if isinstance(lat_sel, float):
+            if np.any([x in model.ds.dims for x in [model.lat_dim, model.lon_dim]]):
+                ds = copy.deepcopy(model.ds) if deep else model.ds
+                if model.lat_dim in ds.dims:
+                    if isinstance(lat_sel, (float, np.floating)):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
-                        self.model.ds = self.model.ds.sel({self.model.lat_dim: lat_sel}, method='nearest')
-                    elif isinstance(lat_sel, int):
+                        ds = ds.sel({model.lat_dim: lat_sel}, method='nearest')
+                    elif isinstance(lat_sel, (int, np.integer)):
                         print("cropping lat dim (lat index requested = %d)" % lat_sel)
-                        self.model.ds = self.model.ds.isel({self.model.lat_dim: lat_sel})
-                if self.model.lon_dim in self.model.ds.dims:
-                    if isinstance(lon_sel, float):
+                        ds = ds.isel({model.lat_dim: lat_sel})
+                if model.lon_dim in ds.dims:
+                    if isinstance(lon_sel, (float, np.floating)):
                         print("cropping lon dim (lon requested = %.2f)" % lon_sel)
-                        self.model.ds = self.model.ds.sel({self.model.lon_dim: lon_sel}, method='nearest')
-                    elif isinstance(lon_sel, int):
+                        ds = ds.sel({model.lon_dim: lon_sel}, method='nearest')
+                    elif isinstance(lon_sel, (int, np.integer)):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
-                        self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
+                        ds = ds.isel({model.lon_dim: lon_sel})
+                self.model = copy.copy(model)
+                self.model.ds = ds
+                if hasattr(self, '_ds'):  # the display exists already
+                    self._ds = {ds_name: ds for ds_name in self._ds.keys()}
         else:
             print("no alternative lat and lon coords provided - keeping processed dataset as is.")
 
-- 
2.43.0


From 53e241f176a7c5d40ff6083e44c5c0d17c430add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 58/85] fix: the model of a display with a dataset name of its
 own can be replaced

---
 emc2/plotting/subcol_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 077d3c2..53aaa91 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -170,7 +170,7 @@ class SubcolumnDisplay(Display):
             A model containing the subcolumn data to relpace the current model data.
 
         """
-        self._ds.pop(self.model.model_name)
+        self._ds.clear()
         self.model = model
         self._ds.update({self.model.model_name: self.model.ds})
 
-- 
2.43.0


From fcd7d2ba35473ee6e01b7f92df1cbcf5218e2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 59/85] fix: only masked cells are hatched

---
 emc2/plotting/subcol_display.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 53aaa91..1e3dbc9 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -491,6 +491,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -514,8 +515,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -616,6 +617,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -639,8 +641,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -745,6 +747,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -761,8 +764,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
         if title is None:
             time_title = ""
@@ -1174,6 +1177,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                     " are different than in the requested field " +
                     str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -1197,8 +1201,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
-- 
2.43.0


From e410c69353e0759221a98246a89d7568cd4899f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 60/85] fix: a second plot in pressure coordinates does not
 turn the axis upside down

---
 emc2/plotting/subcol_display.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 1e3dbc9..5b4923a 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -530,7 +530,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
@@ -779,7 +779,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
 
         self.axes[subplot_index].set_xlabel(x_label)
@@ -938,7 +938,7 @@ class SubcolumnDisplay(Display):
 
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xscale(Xscale)
         if y_range is not None:
@@ -1075,7 +1075,7 @@ class SubcolumnDisplay(Display):
 
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xscale(Xscale)
         if y_range is not None:
@@ -1216,7 +1216,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
-- 
2.43.0


From ade8eadcf471c65c3790579361effde8b3674133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 61/85] fix: mean profiles of negative values fit in the plot,
 those without values are left empty

---
 emc2/plotting/subcol_display.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 5b4923a..0b96636 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -906,8 +906,10 @@ class SubcolumnDisplay(Display):
             else:
                 x_label = ''
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = None
+        if np.any(np.isfinite(x_fill[0])):
+            x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
+            x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
         # Choose label based on variable
         hyd_met = ''
@@ -945,7 +947,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif x_lim is not None:
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
@@ -1050,8 +1052,10 @@ class SubcolumnDisplay(Display):
                 Xscale = 'log'
             else:
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = None
+        if np.any(np.isfinite(x_fill[0])):
+            x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
+            x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
         if Xlabel is None:
             x_label = self.set_axis_label(my_ds, variable)
@@ -1082,7 +1086,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif x_lim is not None:
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
-- 
2.43.0


From 0fc24d554efacb1920bc80c41efc0b39c92076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 62/85] fix: plot_column_input_q_timeseries works with the
 datasets of the current Display

---
 emc2/statistics_LLNL/statistical_plots.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..9515ea1 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -59,11 +59,11 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     cbar: Matplotlib axes handle
         The matplotlib colorbar handle of the plot.
     """
-    ds_name = [x for x in self._obj.keys()][0]
+    ds_name = [x for x in self._ds.keys()][0]
     if len(self.model.ds[variable].dims) == 3:
-        my_ds = self._obj[ds_name].sel(subcolumn=column_no)
+        my_ds = self._ds[ds_name].sel(subcolumn=column_no)
     else:
-        my_ds = self._obj[ds_name]
+        my_ds = self._ds[ds_name]
     x_variable = self.model.time_dim
     if pressure_coords:
         y_variable = self.model.height_dim
@@ -113,12 +113,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         date_xaxis = False
 
     if log_plot is True:
-        if 'vmin' in kwargs.keys():
-            vmin = kwargs['vmin']
-            del kwargs['vmin']
-        if 'vmax' in kwargs.keys():
-            vmax = kwargs['vmax']
-            del kwargs['vmax']
+        vmin = kwargs.pop('vmin', None)
+        vmax = kwargs.pop('vmax', None)
         mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                    **kwargs)
     else:
-- 
2.43.0


From 441ba24a45015f98ea964d0edf9cf1f273a78353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 63/85] fix: colour limits and plotting options of the
 statistics figures are the ones requested

---
 emc2/statistics_LLNL/statistical_plots.py | 79 ++++++-----------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 9515ea1..8da8963 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -209,17 +209,10 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     else:
         cmap = kwargs.pop('cmap')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -295,15 +288,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
         cmap = kwargs.pop('cmap')
 
     SR_BINS_index = np.arange(len(SR_EDGES))
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
                        cfadSR_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
@@ -405,19 +391,12 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
 
     textx, texty = 0.04, 1.03
     ifig = 0
-    if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
-    else:
-        vmin = kwargs.pop('vmin')
-
-    if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
-    else:
-        vmax = kwargs.pop('vmin')    
+    vmin = kwargs.pop('vmin', vmin_radar)
+    vmax = kwargs.pop('vmax', vmax_radar)
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -434,15 +413,12 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
-
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
-                             cmap=cmap)
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar),
+                             cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -541,9 +517,11 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     textx, texty = 0.04, 1.03
 
     ifig = 0
+    vmin = kwargs.pop('vmin', vmin_radar)
+    vmax = kwargs.pop('vmax', vmax_radar)
     Ze_tot_plt[Ze_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
+                             Ze_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -560,15 +538,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
-
     ifig = 1
     beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
@@ -668,14 +637,8 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
         cmap = 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
-    if not 'vmin' in kwargs.keys():
-        vmin = 0
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmax' in kwargs.keys():
-        vmax = 0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0)
+    vmax = kwargs.pop('vmax', None)
 
     fontsize_input = 12
     plt.rcParams.update({'font.size': 12})
@@ -684,7 +647,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     sr_model_level = beta_att_tot_plt/beta_mol_plt
     sr_model_level[sr_model_level <= -1.e+40] = np.nan
     c1 = ax.pcolormesh(input_time_2d_long, input_height_half_long,
-                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax)
+                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax, **kwargs)
     ax.text(textx, texty, 'SR', transform=ax.transAxes)
     y1 = np.array(ax.get_position())[0, 1]
     ddy = np.array(ax.get_position())[1, 1]-np.array(ax.get_position())[0, 1]
@@ -809,7 +772,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl_plt[strat_q_subcolumns_cl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_cl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_cl',
                   transform=ax[ifig].transAxes)
 
@@ -832,7 +795,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_ci_plt[strat_q_subcolumns_ci_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_ci_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_ci',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -855,7 +818,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pl_plt[strat_q_subcolumns_pl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pl',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
@@ -877,7 +840,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pi_plt[strat_q_subcolumns_pi_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pi_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pi',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -1029,7 +992,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From e2e823619bbad41024e7545e26733615e9b86637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 64/85] fix: default colormap of the cloud and precipitation
 figure exists

---
 emc2/statistics_LLNL/statistical_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 8da8963..e3e2de6 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -948,7 +948,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                         right=0.9, wspace=0.1, hspace=0.2)
     ax = axes.flatten()
     if not 'cmap' in kwargs.keys():
-        cmap = 'act_HomeyerRainbow'
+        cmap = 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
 
-- 
2.43.0


From e74aa09b1ea5d617fd358652bd248e7b16c9e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 65/85] fix: figures of a single subcolumn or time step do not
 blank values of the model

---
 emc2/statistics_LLNL/statistical_plots.py | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index e3e2de6..61c697d 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -370,9 +370,9 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
                                                     :, :, col_index].values
 
     Ze_att_tot_plt = np.transpose(
-        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        Ze_att_tot, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
     beta_att_tot_plt = np.transpose(
-        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        beta_att_tot, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     x_dateformat = "%b%d-%H"
     x_rotation = 30
@@ -497,8 +497,8 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
 
     Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values
     beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values
-    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
-    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
+    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
     x_dateformat = "%b%d-%H"
     x_rotation = 30
 
@@ -623,8 +623,8 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     beta_mol = atb_mol_4D[:, :, :, col_index]
 
     beta_att_tot_plt = np.transpose(
-        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
-    beta_mol_plt = np.transpose(beta_mol, axes=(2, 1, 0)).reshape(lev_num, -1)
+        beta_att_tot, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
+    beta_mol_plt = np.transpose(beta_mol, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     x_dateformat = "%b%d-%H"
     x_rotation = 30
@@ -722,22 +722,22 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     # plot
 
@@ -921,22 +921,22 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).copy().reshape(lev_num, -1)
 
     # plot
 
-- 
2.43.0


From 98c6f43a9fc87887a9b04a6c05e6dfe733add486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 66/85] fix: figures of all subcolumns at a single time step

---
 emc2/statistics_LLNL/statistical_plots.py | 26 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 61c697d..d0f50f2 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -9,6 +9,22 @@ import warnings
 warnings.filterwarnings("ignore")
 
 
+def _time_of_position(loc_ground, x_date2num):
+    """
+    Function that gives the time of any position between the time steps.
+
+    Parameters
+    ----------
+    loc_ground: array
+        positions of the time steps
+    x_date2num: array
+        times of the time steps
+    """
+    if len(loc_ground) == 1:  # no other time step to tell the interval from: draw it over an hour
+        return lambda position: x_date2num[0] + (position - loc_ground[0]) / 24.
+    return interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+
+
 def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=True, title=None,
                                    subplot_index=(0, ), colorbar=True, cbar_label=None,
                                    log_plot=False, Mask_array=None, hatched_mask=False,
@@ -347,7 +363,7 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     xval = np.hstack(
         ([i * loc_ground[-1] + loc_ground for i in range(subcolumn_num)]))
     x_date2num = mdates.date2num([y for y in x_time])
-    f = interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+    f = _time_of_position(loc_ground, x_date2num)
     xnew = xval/subcolumn_num
     input_time_long = f(xnew)
     input_time_2d_long = np.empty((lev_num, len(xval)))
@@ -477,7 +493,7 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     xval = np.hstack(
         ([i*loc_ground[-1] + loc_ground for i in range(subcolumn_num)]))
     x_date2num = mdates.date2num([y for y in x_time])
-    f = interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+    f = _time_of_position(loc_ground, x_date2num)
     xnew = xval / subcolumn_num
     input_time_long = f(xnew)
     input_time_2d_long = np.empty((lev_num, len(xval)))
@@ -601,7 +617,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     xval = np.hstack(
         ([i*loc_ground[-1]+loc_ground for i in range(subcolumn_num)]))
     x_date2num = mdates.date2num([y for y in x_time])
-    f = interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+    f = _time_of_position(loc_ground, x_date2num)
     xnew = xval/subcolumn_num
     input_time_long = f(xnew)
     input_time_2d_long = np.empty((lev_num, len(xval)))
@@ -700,7 +716,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     xval = np.hstack(
         ([i*loc_ground[-1]+loc_ground for i in range(subcolumn_num)]))
     x_date2num = mdates.date2num([y for y in x_time])
-    f = interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+    f = _time_of_position(loc_ground, x_date2num)
     xnew = xval/subcolumn_num
     input_time_long = f(xnew)
     input_time_2d_long = np.empty((lev_num, len(xval)))
@@ -899,7 +915,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     xval = np.hstack(
         ([i*loc_ground[-1]+loc_ground for i in range(subcolumn_num)]))
     x_date2num = mdates.date2num([y for y in x_time])
-    f = interpolate.interp1d(loc_ground, x_date2num, fill_value="extrapolate")
+    f = _time_of_position(loc_ground, x_date2num)
     xnew = xval/subcolumn_num
     input_time_long = f(xnew)
     input_time_2d_long = np.empty((lev_num, len(xval)))
-- 
2.43.0


From b897c2a89e5efc65481313dafed480e66d431f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 67/85] fix: CFADs are drawn at the heights of the given
 vertical grid

---
 emc2/statistics_LLNL/statistical_plots.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index d0f50f2..255d83a 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -168,6 +168,22 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     return self.axes[subplot_index]
 
 
+def _level_edges(newgrid_mid):
+    """
+    Edges of the levels of a vertical grid
+
+    Parameters
+    ----------
+    newgrid_mid: array
+        midpoints of the levels
+    """
+    mid = np.asarray(newgrid_mid, dtype=float)
+    if len(mid) == 1:
+        return np.array([0., 2. * mid[0]])
+    inner = (mid[:-1] + mid[1:]) / 2.
+    return np.hstack((2. * mid[0] - inner[0], inner, 2. * mid[-1] - inner[-1]))
+
+
 def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
                     save_flag, fig_path=None, fig_name=None, **kwargs):
     """
@@ -193,7 +209,7 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    levStat_km_add0 = _level_edges(levStat_km)
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
@@ -273,7 +289,7 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    levStat_km_add0 = _level_edges(levStat_km)
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
-- 
2.43.0


From b124f737b2576ff279df2efce887032405c88e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 68/85] fix: figures are saved when requested as documented
 (save_flag=1)

---
 emc2/statistics_LLNL/statistical_plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 255d83a..2a34229 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -259,7 +259,7 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     ax.set_xticks(np.arange(7)*10-50)
     ax.set_ylim(0, 15)
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(f'{fig_path}/CFAD_Radar_{fig_name}.png', dpi=400)
 
 
@@ -340,7 +340,7 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
     labels = np.array([0., 1.2, 5.0, 10.0, 20.0, 30.0, 50.0, 80.0])
     ax.set_xticklabels(labels)
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(f'{fig_path}/CFAD_SR_{fig_name}.png', dpi=400)
 
 
@@ -467,7 +467,7 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(
             f'{fig_path}/radar_lidar_att_allsubcols_{fig_name}.png', dpi=400)
 
@@ -592,7 +592,7 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(
             f'{fig_path}/radar_lidar_nonatt_allsubcols_{fig_name}.png', dpi=400)
 
@@ -694,7 +694,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     for label in ax.get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(
             f'{fig_path}/radar_lidar_SR_allsubcols_{fig_name}.png', dpi=400)
 
@@ -892,7 +892,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(f'{fig_path}/q_allsubcols_{fig_name}.png', dpi=400)
 
 
@@ -1043,6 +1043,6 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if save_flag == 'save':
+    if save_flag in ('save', 1):
         fig.savefig(
             f'{fig_path}/q_cloud_precipitation_allsubcols_{fig_name}.png', dpi=400)
-- 
2.43.0


From fec092b3841c0b71f52689cb852c894f7ffc96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 69/85] fix: levels without values have no range in a mean
 profile of reflectivity

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 0b96636..646bf52 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -893,8 +893,8 @@ class SubcolumnDisplay(Display):
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
             x_fill = np.array(10 * np.log10(self._sd_bounds(x_var, x_err, use_geom_mean)))
-            x_fill[0] = np.where(np.logical_or(use_geom_mean, x_var > x_err), x_fill[0],
-                                 10 * np.log10(np.finfo(float).eps))
+            if not use_geom_mean:
+                x_fill[0] = np.where(x_var <= x_err, 10 * np.log10(np.finfo(float).eps), x_fill[0])
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
@@ -1041,8 +1041,8 @@ class SubcolumnDisplay(Display):
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
             x_fill = np.array(10 * np.log10(self._sd_bounds(x_var, x_err, use_geom_mean)))
-            x_fill[0] = np.where(np.logical_or(use_geom_mean, x_var > x_err), x_fill[0],
-                                 10 * np.log10(np.finfo(float).eps))
+            if not use_geom_mean:
+                x_fill[0] = np.where(x_var <= x_err, 10 * np.log10(np.finfo(float).eps), x_fill[0])
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-- 
2.43.0


From b178fa6a2643f4cf6f43f07a2ad6a924efd80e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 70/85] fix: plot_column_input_q_timeseries of the statistics
 module hatches only masked cells and keeps the axis upright

---
 emc2/statistics_LLNL/statistical_plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 2a34229..d174a1f 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -117,6 +117,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
             print("Mask dimensions " + str(Mask_array.shape) +
                   " are different than in the requested field " +
                   str(var_array.shape) + " - ignoring mask")
+            Mask_array = None
     if y_range is not None:
         self.axes[subplot_index].set_ylim(y_range)
     if x_range is not None:
@@ -140,8 +141,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         hatched_mask = True
     else:
         hatch = '\\/...'
-    if hatched_mask:
-        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+    if hatched_mask and Mask_array is not None:
+        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                         hatch=hatch, alpha=0.)
 
     if date_xaxis:
@@ -152,11 +153,11 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
 
     if title is None:
         self.axes[subplot_index].set_title(self.model.model_name + ' ' +
-                                           np.datetime_as_string(self.model.ds[x_variable][0].values))
+                                           self._time_string(self.model.ds[x_variable].values[0]))
     else:
         self.axes[subplot_index].set_title(title)
 
-    if pressure_coords:
+    if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
         self.axes[subplot_index].invert_yaxis()
     self.axes[subplot_index].set_xlabel(x_label)
     self.axes[subplot_index].set_ylabel(y_label)
-- 
2.43.0


From f89559efb5b52c3defd5e5b9f402dade147492a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 71/85] fix: saving CFADs leaves the model as it is, CFADs of
 another grid can be saved afterwards

---
 emc2/statistics_LLNL/statistical_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index 2987f72..a4637b3 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -30,7 +30,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
         output file name
     """
 
-    model_ds_add = model.ds
+    model_ds_add = model.ds.copy()
     model_ds_add["cosp_dbz"] = ("cosp_dbz", kazr_DBZE_BINS_ground)
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
-- 
2.43.0


From 5f586cac2e4d385b468fa16b9a902d117eb4fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 72/85] fix: mean profiles on a logarithmic axis fit in the
 plot whatever was plotted before

---
 emc2/plotting/subcol_display.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 646bf52..62f7c3c 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -909,6 +909,9 @@ class SubcolumnDisplay(Display):
         x_lim = None
         if np.any(np.isfinite(x_fill[0])):
             x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
+            if Xscale == 'log' and x_min <= 0 and x_max > 0:  # non-positive limits are ignored
+                shown = np.concatenate((x_fill[0], x_var))
+                x_min = np.min(shown[shown > 0], initial=x_max)
             x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
         # Choose label based on variable
@@ -1055,6 +1058,9 @@ class SubcolumnDisplay(Display):
         x_lim = None
         if np.any(np.isfinite(x_fill[0])):
             x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
+            if Xscale == 'log' and x_min <= 0 and x_max > 0:  # non-positive limits are ignored
+                shown = np.concatenate((x_fill[0], x_var))
+                x_min = np.min(shown[shown > 0], initial=x_max)
             x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
         if Xlabel is None:
-- 
2.43.0


From 34e590288594ef2254809326a817100d81f9cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 73/85] fix: the UV and visible lidars take the extra table
 options, as the other instruments do

---
 emc2/core/instruments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/instruments.py b/emc2/core/instruments.py
index 2218e28..018425f 100644
--- a/emc2/core/instruments.py
+++ b/emc2/core/instruments.py
@@ -212,7 +212,7 @@ class RL(Instrument):
         self.eps_liq = (1.357247 + 2.4198595e-9j) ** 2
     
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class HSRL(Instrument):
@@ -243,7 +243,7 @@ class HSRL(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class MPL(HSRL):
@@ -353,4 +353,4 @@ class CALIOP(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
-- 
2.43.0


From 2126dddee1fe888bc5d94b594ab04fab59f6e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 74/85] fix: bulk tables with infinite lidar ratios load as
 numbers

---
 emc2/io/load_bulk_scat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/io/load_bulk_scat_file.py b/emc2/io/load_bulk_scat_file.py
index c5408ec..3838dc6 100644
--- a/emc2/io/load_bulk_scat_file.py
+++ b/emc2/io/load_bulk_scat_file.py
@@ -28,7 +28,7 @@ def load_bulk_scat_file(filename, param_type="C6"):
     elif param_type == "mDAD":
         names = ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]
 
-    my_df = pd.read_csv(filename, names=names)
+    my_df = pd.read_csv(filename, names=names, skipinitialspace=True)
 
     my_df = my_df.to_xarray()
 
-- 
2.43.0


From 55333df85a8c42b7b7878feb615cf1008648a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 75/85] fix: the scattering cross section read by load_mie_file
 names the unit it is in

---
 emc2/io/load_mie_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
-- 
2.43.0


From cc0f862adc971a1df6b3ad924e04a8e8d5aea141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 76/85] fix: the scattering cross section read by
 load_scat_file names the unit it is in

---
 emc2/io/load_scat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
-- 
2.43.0


From 5ff1bdbb540765deb2517d1931cbf9ee1d150984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 77/85] fix: beta_p of water spheres is their backscattering
 cross section, scat_p the scattering cross section

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..5b61cee 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -88,8 +88,8 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
-- 
2.43.0


From 47e58ae2d67ca91fe2bf63368fb43cd0f3735c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 78/85] fix: cross sections of spheres carry their own names
 and units

---
 emc2/scattering/mie_scattering.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 5b61cee..bec4aae 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -124,12 +124,12 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
@@ -221,17 +221,17 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Forward scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
-- 
2.43.0


From 8263f60d1fa358ebd3978a7a5edb73f48d9ec3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 79/85] fix: size parameters of spheres use diameter and
 wavelength in the same unit

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index bec4aae..deea806 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -92,7 +92,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From e43a167470057479ac36a6ab52809c89137a47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 80/85] fix: scattering properties of spheres are those at the
 requested diameters

---
 emc2/scattering/mie_scattering.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index deea806..d6bf2d7 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -2,7 +2,7 @@ import numpy as np
 import xarray as xr
 
 try:
-    from PyMieScatt import MieQ_withDiameterRange
+    from PyMieScatt import AutoMieQ
     PYMIESCAT_AVAILABLE = True
 except ModuleNotFoundError:
     PYMIESCAT_AVAILABLE = False
@@ -45,6 +45,22 @@ def brandes(D_eq):
         D_eq, 4
     )
 
+
+def _mie_efficiencies(m, wavelength, nMedium, diams):
+    """
+    Mie efficiencies of spheres of the given diameters (in microns) at a wavelength in cm.
+
+    Returns
+    -------
+    diams: np.array
+        The diameters in nanometers, followed by arrays of the extinction, scattering, absorption, asymmetry,
+        radiation pressure, and backscattering efficiencies, and the backscattering ratio at these diameters.
+    """
+    diams = np.asarray(diams, dtype=float) * 1000.
+    eff = [AutoMieQ(m / nMedium, wavelength * 1e7 / nMedium, d) for d in diams]
+    return (diams, *(np.array([q[i] for q in eff]) for i in range(7)))
+
+
 def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     """
     Calculate the scattering properties for a range of water spheres.
@@ -52,7 +68,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     Parameters
     ----------
     diams: array floats
-        Particle diameter in meters
+        Particle diameter in microns
     wavelength: float
         Wavelength in cm
     temperature: float
@@ -81,9 +97,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     m = calc_microwave_ref_index(wavelength, temperature)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15)**2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium, nd=len(diams),
-        diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams, qext, qsca, qabs, g, qpr, qback, qratio = _mie_efficiencies(m, wavelength, nMedium, diams)
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
@@ -183,9 +197,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     m = calc_microwave_ref_index_ice(wavelength, temperature, rho_d)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15) ** 2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium,
-        nd=len(diams), diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams, qext, qsca, qabs, g, qpr, qback, qratio = _mie_efficiencies(m, wavelength, nMedium, diams)
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
-- 
2.43.0


From ca8ce8b37d29869821868779031774075738b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 81/85] fix: scattering ratios of the COSP emulator are
 labelled dimensionless

---
 emc2/simulator/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 8fba029..da924ee 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -335,7 +335,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
                 SR, dims=model.ds["strat_q_subcolumns_cl"].dims)
             model.ds["COSP_SR_%s" % cloud_class].attrs["long_name"] = \
                 "COSP emulation scattering ratio for %s clouds" % cloud_class
-            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = "1"
 
     # determine phase_mask for all hydrometeors
     ATB_tot_allhyd = (beta_p_allhyd + beta_p_cross_allhyd +
@@ -395,7 +395,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
             SR_allhyd, dims=model.ds["strat_q_subcolumns_cl"].dims)
         model.ds["COSP_SR_all_hyd"].attrs["long_name"] = \
             "COSP emulation scattering ratio (convective + stratiform)"
-        model.ds["COSP_SR_all_hyd"].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+        model.ds["COSP_SR_all_hyd"].attrs["units"] = "1"
 
     return model
 
-- 
2.43.0


From 15fce718907df795ddb3706e7991e5cc0e833351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 82/85] fix: convective precipitation of every precipitating
 class of the model gets its subcolumns

---
 emc2/simulator/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index e4a872d..06a01b4 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -144,7 +144,8 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
                 precip_types=precip_types)
         if model.process_conv:
             model = set_precip_sub_col_frac(
-                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk)
+                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk,
+                precip_types=precip_types)
         for hyd_type in hydrometeor_classes:
             if hyd_type != 'cl':
                 model = set_q_n(
-- 
2.43.0


From ad8f08bdfe83d0fe2406d1d9f3d8369817a1e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 83/85] fix: COSP lidar emulation counts snow, graupel and hail
 as ice

---
 emc2/simulator/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index da924ee..fd5a623 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -237,7 +237,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         atb_cross_coeff = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
 
     if inc_precip_hyd_atb:
-        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci", "pi"]}
+        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci"] + [x for x in hyd_types if x not in ["cl", "pl", "ci"]]}
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
-- 
2.43.0


From 43d01b415741ad5f53a211ef1e57523688ee6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 84/85] fix: mass phase ratio counts snow, graupel and hail as
 ice

---
 emc2/simulator/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index fd5a623..d7bf680 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -441,7 +441,7 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
 
     if mass_pr is True:
         liq_classes = [x for x in ["cl", "pl"] if x in hyd_types]
-        ice_classes = [x for x in ["ci", "pi"] if x in hyd_types]
+        ice_classes = [x for x in hyd_types if x not in ["cl", "pl"]]
         if mpr_subcolmod is True:
             mass_subcol_liq = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
             mass_subcol_ice = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
-- 
2.43.0


From 8d6c871e2cea736abad314a9f1168d9cb7aaf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 85/85] fix: logarithmic mean profiles show the whole spread
 where the mean is not positive

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 62f7c3c..2b83313 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -910,7 +910,7 @@ class SubcolumnDisplay(Display):
         if np.any(np.isfinite(x_fill[0])):
             x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
             if Xscale == 'log' and x_min <= 0 and x_max > 0:  # non-positive limits are ignored
-                shown = np.concatenate((x_fill[0], x_var))
+                shown = np.concatenate((*x_fill, x_var))
                 x_min = np.min(shown[shown > 0], initial=x_max)
             x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
@@ -1059,7 +1059,7 @@ class SubcolumnDisplay(Display):
         if np.any(np.isfinite(x_fill[0])):
             x_min, x_max = np.nanmin(x_fill[0]), np.nanmax(x_fill[1])
             if Xscale == 'log' and x_min <= 0 and x_max > 0:  # non-positive limits are ignored
-                shown = np.concatenate((x_fill[0], x_var))
+                shown = np.concatenate((*x_fill, x_var))
                 x_min = np.min(shown[shown > 0], initial=x_max)
             x_lim = np.array([x_min - 0.05 * np.abs(x_min), x_max + 0.05 * np.abs(x_max)])
 
-- 
2.43.0

