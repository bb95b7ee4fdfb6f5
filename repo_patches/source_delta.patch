From a72b755ae948f24fb98b53a9f4d853deda386abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 01/80] fix: single-subcolumn convective placement crashed on
 2-D fields

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..11011e9 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]].values,
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From b643e1b8cc7982a2a6c8584ee1c10b76cbab2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 02/80] fix: stratiform placement lost subcolumns of the single
 phase present under two-phase cloud

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 11011e9..6f74378 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -632,8 +632,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From 0b1de167f1afc797807ec09dd3a9eade9516d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 03/80] fix: stratiform placement without convection ignored
 the model's own subcolumn count

---
 emc2/simulator/subcolumn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 6f74378..1780e67 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -141,6 +141,8 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
         conv_profs2 = model.ds["conv_frac_subcolumns_ci"]
         conv_profs = np.logical_or(conv_profs1.values, conv_profs2.values)
     else:
+        if N_columns is None:
+            N_columns = model.num_subcolumns
         if model.num_subcolumns == 0:
             model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
         conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
-- 
2.43.0


From 4c069da1ed7e3bb3e305ec78012f188b4a61e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 04/80] fix: chunked sub-grid q distribution stored columns in
 the wrong time order

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 1780e67..b94db1c 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -546,16 +546,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From d91811bc10aeff10f479f3216e47dc03aac29c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 05/80] fix: sub-grid q distribution never ended where cloud
 fraction is set but there is no cloud water

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index b94db1c..b7df8a5 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -759,7 +759,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
         hyd_in_sub_loc = np.where(sub_data_frac[:, tt, j])[0]
         if tot_hyd_in_sub[tt, j] == 1:
             q_profs[hyd_in_sub_loc, j] = q_ic_mean[tt, j]
-        elif tot_hyd_in_sub[tt, j] > 1:
+        elif tot_hyd_in_sub[tt, j] > 1 and q_ic_mean[tt, j] > 0:
             alpha = inv_rel_var[tt, j] / q_ic_mean[tt, j]
             a = inv_rel_var[tt, j]
             b = 1 / alpha
-- 
2.43.0


From d5f79a253d8b1504c74a4cf629bee4aa7b772eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 06/80] fix: bulk radar attenuation was lost wherever one class
 is absent

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..1def12b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,13 +443,13 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.nan_to_num(np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From e4c94c7ef9daa5fa400b45543c39e60a0db90766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 07/80] fix: bulk radar extinction and backscatter were
 negative in the topmost layer

---
 emc2/simulator/radar_moments.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 1def12b..d794073 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -12,6 +12,12 @@ from .psd import calc_velocity_nssl, calc_and_set_psd_params
 from ..core.instrument import ureg, quantity
 
 
+def _layer_diff(values):
+    """Difference across each model layer; the topmost layer is given that of the layer below it."""
+    diffs = np.diff(values, axis=1)
+    return np.concatenate((diffs, diffs[:, -1:]), axis=1)
+
+
 def calc_total_reflectivity(model, detect_mask=False):
     """
     This method calculates the total (convective + stratiform) reflectivity (Ze).
@@ -306,10 +312,10 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
     hyd_ext = np.zeros(Dims)
     rhoa_dz = np.tile(
-        np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+        np.abs(_layer_diff(p_values)) / instrument.g,
         (n_subcolumns, 1, 1))
     dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+        _layer_diff(z_values), (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From 81df2da85ea51fda391378b82313b32d6b9893a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 08/80] fix: bulk lidar extinction and backscatter were
 negative in the topmost layer

---
 emc2/simulator/lidar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..2917ffa 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -7,7 +7,7 @@ from scipy.interpolate import RegularGridInterpolator
 
 from .attenuation import calc_theory_beta_m
 from .psd import calc_and_set_psd_params
-from .radar_moments import _set_p3_tiled_arrays
+from .radar_moments import _layer_diff, _set_p3_tiled_arrays
 from ..core.instrument import ureg, quantity
 
 
@@ -362,9 +362,9 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     model.ds['sub_col_OD_tot_%s' % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
-    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+    rhoa_dz = np.tile(np.abs(_layer_diff(p_values)) / instrument.g,
                       (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    dz = np.tile(_layer_diff(z_values), (model.num_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
-- 
2.43.0


From 0e93343695349396e94406f92994ebf3059691bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 09/80] fix: microphysics radar attenuation considered only the
 last hydrometeor class

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index d794073..c3040a3 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -545,6 +545,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
@@ -667,7 +668,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -710,7 +711,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From 566fc1c5592aacbd4eee2d6a147fc177797ce3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 10/80] fix: empirical radar attenuation kept only the last
 class's liquid water

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index c3040a3..0a62168 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -199,9 +199,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From 559d1e27b87b042135e12bea0688577cc6104633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 11/80] fix: microphysics radar totals depended on the position
 of cl in the class list

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 0a62168..74fcc71 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -664,9 +664,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -811,7 +811,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 7c7d85d4008533b57ff233248038b59a6183c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 12/80] fix: microphysics radar reflectivity accumulated on top
 of earlier results

---
 emc2/simulator/radar_moments.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 74fcc71..ce1e2d9 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -546,20 +546,14 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
     hyd_ext = np.zeros(Dims)
+    for var_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
+        model.ds[var_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From b9e55db9774b04565dbb2181cb77369be50f8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 13/80] fix: microphysics lidar totals accumulated on top of
 earlier results

---
 emc2/simulator/lidar_moments.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 2917ffa..2be19eb 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,13 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    for var_name in ["sub_col_beta_p_tot_strat", "sub_col_alpha_p_tot_strat", "sub_col_OD_tot_strat"]:
+        model.ds[var_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 0d6fb8e2e913ad3bc6293b95b8113d0dbddd86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 14/80] fix: second microphysics P3 radar run of the same
 instrument crashed

---
 emc2/simulator/radar_moments.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index ce1e2d9..1cef9f9 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -612,13 +612,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 0c26557e1a5ada844899392555868d2c1abbefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 15/80] fix: second microphysics P3 lidar run of the same
 instrument crashed

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 2be19eb..b683c10 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -630,12 +630,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
-- 
2.43.0


From 8617ce4ccbd2cc0dbd2061b95e8f1e4d1d875a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 16/80] fix: total spectral width used the last class's air
 density correction for all classes

---
 emc2/simulator/radar_moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 1cef9f9..6628c10 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -774,6 +774,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            # Microphysics scheme-specific air density correction of terminal velocity
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)  # by default, no correction is applied
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From 4d8700631a7458714882f1e6b5d07c276ef7de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 17/80] fix: minimum detectable reflectivity assumed height in
 m whatever its units

---
 emc2/simulator/attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..b00e8de 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,8 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_values = quantity(model.ds[model.z_field].values, model.ds[model.z_field].attrs["units"]).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_values) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From 5fccf0ea13d413c41eb13d6b7dbbd44631ddebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 18/80] fix: oxygen line width regimes were chosen from
 pressure in the model's own units

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index b00e8de..c64e8e8 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -72,8 +72,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From 3440ce96a406b8e853585243ded55499fa6a7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 19/80] fix: radar gaseous attenuation used frequency in Hz in
 formulas for GHz

---
 emc2/simulator/attenuation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index c64e8e8..43170c5 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -64,20 +64,21 @@ def calc_radar_atm_attenuation(instrument, model):
 
     rho_wv = column_ds[q_field] * 1e3 * (p_temp * 1e2) / (instrument.R_d * t_temp)
     three_hundred_t = 300. / t_temp
+    freq = instrument.freq * 1e-9  # GHz
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
         (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[p_temp >= 333] = 0.59
     gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From 69a38bc9b6e008b936851270d71bcd22cf2abe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 20/80] fix: water vapor attenuation did not follow the Ulaby
 et al. line shape

---
 emc2/simulator/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 43170c5..a190338 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -67,9 +67,9 @@ def calc_radar_atm_attenuation(instrument, model):
     freq = instrument.freq * 1e-9  # GHz
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        ((three_hundred_t) * np.exp(-644 / t_temp) /
+         ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-- 
2.43.0


From 8affc6afeed897eaf7e7313afad696f9c9b9c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 21/80] fix: ref_rng passed to make_simulated_data was ignored

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From d099a88e4b6c4d0f4752f2ee5bde26dddc5a366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 22/80] fix: convective precipitation overlap ignored the
 model's own precipitation classes

---
 emc2/simulator/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index e4a872d..06a01b4 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -144,7 +144,8 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
                 precip_types=precip_types)
         if model.process_conv:
             model = set_precip_sub_col_frac(
-                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk)
+                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk,
+                precip_types=precip_types)
         for hyd_type in hydrometeor_classes:
             if hyd_type != 'cl':
                 model = set_q_n(
-- 
2.43.0


From 25274782298153196de05d9f327d83c5ca8bc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 23/80] fix: molecular transmittance ignored OD_from_sfc in
 lidar moments

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index b683c10..f565f97 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -799,7 +799,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From a876dea6883502a2c3da719b2f2bbc3bf7b799ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 24/80] fix: calc_LDR_and_ext ignored LDR_per_hyd and needed
 the first class even when excluded

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index f565f97..11ebbb5 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,15 +114,16 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * \
+                getattr(LDR_per_hyd[hyd_type], "magnitude", LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From ca52bd527967b326a035ca18e28546d7a4711cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 25/80] fix: NSSL terminal velocities could not be calculated
 in radar microphysics logic

---
 emc2/simulator/radar_moments.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 6628c10..b27b9da 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -591,13 +591,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
         num_subcolumns = model.num_subcolumns
         rhoe = None
-        if model.mcphys_scheme == "nssl":
-            rhoe = model.Rho_hyd[hyd_type]
-            if rhoe == 'variable':
+        if model.mcphys_scheme.lower() == "nssl":
+            calc_kws = None
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                 v_tmp = 'variable'
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -759,13 +759,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 beta_p = instrument.mie_table[hyd_type]["beta_p"].values
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
-            if model.mcphys_scheme == "nssl":
-                rhoe = model.Rho_hyd[hyd_type]
-                if rhoe == 'variable':
+            if model.mcphys_scheme.lower() == "nssl":
+                calc_kws = None
+                if model.Rho_hyd[hyd_type] == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                     v_tmp = 'variable'
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -789,8 +789,8 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
                 _calc_sigma_d_liq = lambda x: _calc_sigma_d_tot_cl(
                     x, N_0, lambdas, mu, instrument,
-                    model.vel_param_a, model.vel_param_b, total_hydrometeor,
-                    p_diam, Vd_tot, num_subcolumns, model.mcphys_scheme, rhoa_corr)
+                    v_tmp, total_hydrometeor,
+                    p_diam, Vd_tot, num_subcolumns, rhoa_corr)
 
                 if parallel:
                     if chunk is None:
@@ -1050,8 +1050,8 @@ def calc_radar_moments(instrument, model, is_conv,
 
 
 def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
-                         vel_param_a, vel_param_b, total_hydrometeor,
-                         p_diam, Vd_tot, num_subcolumns, mcphys_scheme, rhoa_corr):
+                         v_tmp, total_hydrometeor,
+                         p_diam, Vd_tot, num_subcolumns, rhoa_corr):
     hyd_type = "cl"
     Dims = Vd_tot.shape
 
@@ -1075,9 +1075,6 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
-            v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1126,7 +1123,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1244,7 +1241,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 26ec6df284e58bd86f9612ae4385f8bccdcf930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 26/80] fix: microphysics radar run on P3 ice alone crashed

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index b27b9da..1377170 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -841,7 +841,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")  # not set for P3 ice
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From f21b8774b99533675b4aa65daac478f45aa1de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 27/80] fix: empirical lidar calculation failed on the units of
 liquid density

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 11ebbb5..646e956 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -257,7 +257,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From fa94aa73b8001f048454fb30c16cbf7098650546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 28/80] fix: bulk lidar calculation failed for classes with
 variable density

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 646e956..4434090 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -418,10 +418,11 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         i_calc_kws["Fr_in"], i_calc_kws["rho_r_in"], i_calc_kws["q_norm_in"]))
                     re_array = np.tile(re_interped * rhoi_eff_interped / rho_b, (model.num_subcolumns, 1, 1))
         else:
-            rho_b = instrument.rho_i  # bulk ice
-            rho_hyd = model.Rho_hyd[hyd_type]
-            if rho_hyd == 'variable':
+            rho_b = instrument.rho_i.magnitude  # bulk ice
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rho_hyd = model.ds[model.variable_density[hyd_type]].values
+            else:
+                rho_hyd = model.Rho_hyd[hyd_type].magnitude
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From 7eb89faf6209c791d2af6389c07019cc0f87419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 29/80] fix: molecular mass extinction cross section was off by
 1e4 and had density units

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index a190338..30e06c6 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -147,7 +147,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
     sigma = sigma * 1e-4
     N_s = N_s / 1e-6
     beta = beta / 1e-2
-    kappa = kappa * 1e-3 / 1e-6
+    kappa = kappa * 1e-4 / 1e-3
     sigma_180 = sigma_180 * 1e-4
     sigma_180_vol = sigma_180_vol / 1e-2
 
@@ -188,7 +188,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
 
     model.ds["kappa"] = xr.DataArray(kappa, dims=my_dims)
     model.ds["kappa"].attrs["long_name"] = "Mass extinction cross section per molecule"
-    model.ds["kappa"].attrs["units"] = r"$kg\ m^{-3}$"
+    model.ds["kappa"].attrs["units"] = r"$m^2\ kg^{-1}$"
 
     model.ds["N_s"] = xr.DataArray(N_s, dims=my_dims)
     model.ds["N_s"].attrs["long_name"] = "Number density profile"
-- 
2.43.0


From af4bfbd046de47b7a8d0d1f8d54023f664fa59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 30/80] fix: COSP lidar emulation ignored the snow, graupel,
 hail and P3-style ice precipitation classes

---
 emc2/simulator/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..10067fa 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -236,7 +236,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         atb_cross_coeff = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
 
     if inc_precip_hyd_atb:
-        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci", "pi"]}
+        hyd_classes = {"liq": ["cl", "pl"], "ice": [x for x in hyd_types if x not in ["cl", "pl"]]}
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
-- 
2.43.0


From e72cbeb84d8a0759695d6b6b7742557f0a923144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 31/80] fix: mass phase ratio ignored ice classes other than ci
 and pi

---
 emc2/simulator/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 10067fa..a598123 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -439,7 +439,7 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
 
     if mass_pr is True:
         liq_classes = [x for x in ["cl", "pl"] if x in hyd_types]
-        ice_classes = [x for x in ["ci", "pi"] if x in hyd_types]
+        ice_classes = [x for x in hyd_types if x not in ["cl", "pl"]]
         if mpr_subcolmod is True:
             mass_subcol_liq = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
             mass_subcol_ice = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
-- 
2.43.0


From a1622169a28b095f81f8f5c3343e1cbb448248ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 32/80] fix: COSP lidar emulation compared temperatures with
 kelvin thresholds whatever their units

---
 emc2/simulator/classification.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index a598123..d6f072b 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -240,6 +241,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
+    t_temp = quantity(model.ds[model.T_field].values,
+                      model.ds[model.T_field].attrs["units"]).to("kelvin").magnitude
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
@@ -301,11 +304,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) > 273.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_temp, (model.num_subcolumns, 1, 1)) > 273.15,
                               phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) < 233.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_temp, (model.num_subcolumns, 1, 1)) < 233.15,
                               phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
         if convert_zeros_to_nan:
@@ -363,11 +364,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) > 273.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_temp, (model.num_subcolumns, 1, 1)) > 273.15,
                           phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) < 233.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_temp, (model.num_subcolumns, 1, 1)) < 233.15,
                           phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
     if convert_zeros_to_nan:
-- 
2.43.0


From 5fd37348bd69533f7b521aed2f6f405ee1afb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 33/80] fix: mass phase ratio was missing wherever one class's
 finalised (NaN) field was empty

---
 emc2/simulator/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index d6f072b..2fe8831 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -446,11 +446,11 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
                 for hyd_class in liq_classes:
                     mass_subcol_liq += np.where(
                         model.ds[variable] > 0,
-                        model.ds["%s_q_subcolumns_%s" % (cloud_class, hyd_class)], 0)
+                        np.nan_to_num(model.ds["%s_q_subcolumns_%s" % (cloud_class, hyd_class)].values), 0)
                 for hyd_class in ice_classes:
                     mass_subcol_ice += np.where(
                         model.ds[variable] > 0,
-                        model.ds["%s_q_subcolumns_%s" % (cloud_class, hyd_class)], 0)
+                        np.nan_to_num(model.ds["%s_q_subcolumns_%s" % (cloud_class, hyd_class)].values), 0)
             PR = mass_subcol_liq / (mass_subcol_liq + mass_subcol_ice)
             PR_sum = np.nansum(mass_subcol_liq, axis=0) / (np.nansum(mass_subcol_liq, axis=0) +
                                                            np.nansum(mass_subcol_ice, axis=0))
-- 
2.43.0


From ceb640f28cafed24e59edea1a6c461ad8cb6a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 34/80] fix: unstacking lost auxiliary coordinates (e.g. WRF
 latitude and longitude)

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..1e48975 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -483,7 +483,7 @@ class Model():
         """
         if self.stacked_time_dim is None:
             raise TypeError("stacked_time_dim is None so dataset is apparently already unstacked!")
-        out_fields = [x for x in self.ds.keys()]
+        out_fields = [x for x in self.ds.variables if x not in self.ds.indexes]
         self.permute_dims_for_processing(base_order=[self.height_dim, self.time_dim], base_dim_first=False)
         if self.lon_dim + "_tmp" in self.ds.coords:
             more_dims = (self.ds[self.lon_dim + "_tmp"].dims[0],
-- 
2.43.0


From a1fb2d989513124fdb950491dc434d93e0dec7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 35/80] fix: DHARMA reader turned time stamps into floats, so
 that any time cropping failed

---
 emc2/core/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 1e48975..2b6d639 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1480,6 +1480,8 @@ class DHARMA(Model):
         else:
             self.ds = xr.open_dataset(file_path)
             for variable in self.ds.variables.keys():
+                if np.issubdtype(self.ds[variable].dtype, np.datetime64):
+                    continue  # keep time stamps (required for time cropping)
                 my_attrs = self.ds[variable].attrs
                 self.ds[variable] = self.ds[variable].astype('float64')
                 self.ds[variable].attrs = my_attrs
-- 
2.43.0


From 88c64e9fc35270cb17cafcc967b124361945af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 36/80] fix: DHARMA rimed ice class used its cloud fraction as
 effective radius

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 2b6d639..f716d0c 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1465,8 +1465,8 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
-- 
2.43.0


From a00b9f6ef40c74bdfc47ea396aef14f3f48d432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 37/80] fix: removing one suffix shared by the lat and lon
 dimensions raised an error

---
 emc2/core/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index f716d0c..9c50a96 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -382,6 +382,7 @@ class Model():
                 self.ds = self.ds.drop_vars([f"{var}{appended_dim}" for appended_dim in appended_dims])
         else:
             for coordinate in coordinates:
+                out_coords = [x for x in self.ds.dims]  # current names (dims might be renamed in this loop)
                 coord_loc = np.argwhere([x[:len(coordinate)] == coordinate for x in out_coords]).item()
                 if len(out_coords[coord_loc]) > len(coordinate):
                     appended_str = out_coords[coord_loc][len(coordinate):]
-- 
2.43.0


From 0be84a5d46c16c5308fa43510271076eb2d34d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 38/80] fix: loaded subcolumn output was read lazily from a
 closed file (lost when the file was changed or removed)

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 9c50a96..07abe29 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -585,7 +585,7 @@ class Model():
         file_name: str
             Name of the file to save.
         """
-        my_file = xr.open_dataset(file_name)
+        my_file = xr.open_dataset(file_name).load()
         self.ds = xr.merge([self.ds, my_file])
         my_file.close()
 
-- 
2.43.0


From 57440ea22de58bdb76cec9faa59024a707ff9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 39/80] fix: COSP emulator subcolumn output was left out of the
 saved subcolumn file

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 07abe29..072a73d 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -569,7 +569,7 @@ class Model():
         vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", self.time_dim, "Times"]
         var_dict = {}
         for my_var in self.ds.variables.keys():
-            if np.any([x in my_var for x in vars_to_keep]):
+            if np.any([x in my_var for x in vars_to_keep]) or "subcolumn" in self.ds[my_var].dims:
                 var_dict[my_var] = self.ds[my_var]
         out_ds = xr.Dataset(var_dict)
         out_ds.to_netcdf(file_name)
-- 
2.43.0


From c3bcbb48146960e55f417b9a97898bbe790117c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 40/80] fix: removing a cloud class' subcolumn fields left its
 COSP and extinction mask fields behind

---
 emc2/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 072a73d..426989c 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -318,7 +318,8 @@ class Model():
         vars_to_drop = []
         for key in self.ds.keys():
             if np.logical_and(cloud_class in key,
-                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask"]])):
+                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask"]]
+                                     + ["subcolumn" in self.ds[key].dims])):
                 vars_to_drop.append(key)
         self.ds = self.ds.drop_vars(vars_to_drop)
 
-- 
2.43.0


From 32108a0bdf2ac52a557f0535e4741e7b08f5c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 41/80] fix: vertical regridding ran past the top of the model
 grid

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..a2bbea9 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
-- 
2.43.0


From 2ff3d9f5f084f561dc0cd284c07ab72a62007022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 42/80] fix: vertical regridding skipped the lowest model layer
 after the first output level

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index a2bbea9..2f0acd2 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < -1:
+                lev = -1  # next output level starts again from the lowest layer
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From 58c2b3de72cf173633619bdc15bf7852db5a849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 43/80] fix: output levels without any model layer were 0
 instead of missing after vertical regridding

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 2f0acd2..55b88ed 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -294,6 +294,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             if Nw > 0:
                 for j in np.arange(Ncolumns):
                     r[i, j, k] = r[i, j, k] / wt
+            else:
+                r[i, :, k] = R_UNDEF
 
     for k in np.arange(Nglevels):
         for j in np.arange(Ncolumns):
-- 
2.43.0


From 1618b43887100beffb7eabc8e304e6b171fb5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 44/80] fix: below-ground and partly undefined levels leaked
 flag values into regridded signals and scattering ratio

---
 emc2/statistics_LLNL/statistical_aggregation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 55b88ed..cfa2b85 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -148,6 +148,7 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
     """
 
     R_UNDEF = -1.0E30
+    R_GROUND = -1.0E20  # Flag for below ground results
     b = copy.deepcopy(atb_total_4D)
     atb_total_4D_num = np.nan_to_num(b, nan=R_UNDEF)
     c = copy.deepcopy(atb_mol_4D)
@@ -181,9 +182,10 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    # undefined (also when averaged with valid layers) or below ground
+    loc_atbtot = np.where(Regrided_atb_total_reorder_4D <= R_GROUND)
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D <= R_GROUND)
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
@@ -347,6 +349,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_GROUND = -1.0E20  # Flag for below ground results
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -369,7 +372,8 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    # undefined (also when averaged with valid layers) or below ground
+    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D <= R_GROUND)
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From 9800476569320b2b9ab2bc60bcff988f4bd8aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 45/80] fix: half levels were the upper layer interfaces, so
 that regridding shifted profiles up by one layer

---
 emc2/statistics_LLNL/statistical_aggregation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index cfa2b85..6884da6 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,9 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    # lower interface of each layer (per COSP_CHANGE_VERTICAL_GRID; the top layer is symmetric)
+    zhalf[1:] = zfull[:-1] + np.diff(zfull) / 2.
+    zhalf[0] = zfull[0] - (zhalf[1] - zfull[0])
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From 89ee305412a0cf1c5a9ed07f46cddce4e4b991c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 46/80] fix: radar bins were not written to the CFAD file

---
 emc2/statistics_LLNL/statistical_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..005be17 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -31,7 +31,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
     """
 
     model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add = model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From 262fc8a845967265fa79d3602882a48af92cf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 47/80] fix: lidars without a temperature option rejected the
 DHARMA table option

---
 emc2/core/instruments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/instruments.py b/emc2/core/instruments.py
index 2218e28..018425f 100644
--- a/emc2/core/instruments.py
+++ b/emc2/core/instruments.py
@@ -212,7 +212,7 @@ class RL(Instrument):
         self.eps_liq = (1.357247 + 2.4198595e-9j) ** 2
     
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class HSRL(Instrument):
@@ -243,7 +243,7 @@ class HSRL(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class MPL(HSRL):
@@ -353,4 +353,4 @@ class CALIOP(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
-- 
2.43.0


From 46c7ca6e7baac124a69e1d2b67c45626845e597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 48/80] fix: scattering cross sections in m^2 were labelled as
 square microns

---
 emc2/io/load_mie_file.py  | 2 +-
 emc2/io/load_scat_file.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
-- 
2.43.0


From 7f52aebdd473f57768e44e449b42b7ebe7f0f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 49/80] fix: Mie scattering properties were computed for evenly
 spaced sizes instead of those requested

---
 emc2/scattering/mie_scattering.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..470d565 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -2,7 +2,7 @@ import numpy as np
 import xarray as xr
 
 try:
-    from PyMieScatt import MieQ_withDiameterRange
+    from PyMieScatt import AutoMieQ
     PYMIESCAT_AVAILABLE = True
 except ModuleNotFoundError:
     PYMIESCAT_AVAILABLE = False
@@ -81,9 +81,9 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     m = calc_microwave_ref_index(wavelength, temperature)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15)**2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium, nd=len(diams),
-        diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams, dtype=float) * 1000.
+    qext, qsca, qabs, g, qpr, qback, qratio = np.array(
+        [AutoMieQ(m, wavelength * 1e7, d, nMedium=nMedium) for d in diams]).T
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
@@ -183,9 +183,9 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     m = calc_microwave_ref_index_ice(wavelength, temperature, rho_d)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15) ** 2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium,
-        nd=len(diams), diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams, dtype=float) * 1000.
+    qext, qsca, qabs, g, qpr, qback, qratio = np.array(
+        [AutoMieQ(m, wavelength * 1e7, d, nMedium=nMedium) for d in diams]).T
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
-- 
2.43.0


From 211aba708037e465e02e9694fffd1228664349b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 50/80] fix: scattering and backscattering cross sections of
 water were swapped

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 470d565..d25d1fe 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -88,8 +88,8 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
-- 
2.43.0


From 43a8a777f8a7a356c798bd5bd44fa8411a35af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 51/80] fix: size parameter of computed scattering properties
 was 1000 times too large

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index d25d1fe..0769b1b 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -92,7 +92,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From fdaa82167c2fee35b59748910d5286de606c0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 52/80] fix: labels and units of computed scattering cross
 sections were mixed up

---
 emc2/scattering/mie_scattering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 0769b1b..7ce3cc2 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -52,7 +52,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     Parameters
     ----------
     diams: array floats
-        Particle diameter in meters
+        Particle diameter in microns
     wavelength: float
         Wavelength in cm
     temperature: float
@@ -124,12 +124,12 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
@@ -221,17 +221,17 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Forward scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
-- 
2.43.0


From db0142876f66b35c0139f4a32bb4c1404a76a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 53/80] fix: computed scattering properties were unrelated
 coordinates instead of variables along the sizes

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 7ce3cc2..0960b86 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -95,7 +95,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
-    my_df = xr.Dataset(my_dict)
+    my_df = xr.Dataset({key: ('index', np.asarray(value)) for key, value in my_dict.items()})
 
     my_df["wavelength"].attrs["units"] = "microns"
     my_df["wavelength"].attrs["long_name"] = "Wavelength of beam"
@@ -197,7 +197,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
-    my_df = xr.Dataset(my_dict)
+    my_df = xr.Dataset({key: ('index', np.asarray(value)) for key, value in my_dict.items()})
 
     my_df["wavelength"].attrs["units"] = "microns"
     my_df["wavelength"].attrs["long_name"] = "Wavelength of beam"
-- 
2.43.0


From bcf1dbe0556fd7d369b02645359bf324bd3715cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 54/80] fix: time ranges given as tuples or lists were rejected

---
 emc2/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 426989c..be3f3e1 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -688,7 +688,7 @@ class ModelE(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
@@ -832,7 +832,7 @@ class E3SMv1(Model):
 
             # crop specific model output time range (if requested)
             if time_range is not None:
-                if np.issubdtype(time_range.dtype, np.datetime64):
+                if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                     if time_dim == "ncol":
                         super()._crop_time_range(time_range, alter_coord="time")
                     else:
@@ -1494,7 +1494,7 @@ class DHARMA(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
-- 
2.43.0


From 3f7f06da8b5191bc8df5be86dd3ac405c7d8fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 55/80] fix: upper-case NSSL scheme name left graupel and hail
 without their densities

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index be3f3e1..270d131 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1336,7 +1336,7 @@ class WRF(Model):
 
         
         self.ds["QVAPOR"] = ds["QVAPOR"]
-        if mcphys_scheme == "nssl":
+        if mcphys_scheme.lower() == "nssl":
             x = ds["QGRAUP"] / ds["QVGRAUPEL"]
             x = np.where(np.isfinite(x), x, 900.)
             self.ds["RHO_GRAUPEL"] = xr.DataArray(x, dims=ds["QGRAUP"].dims)
-- 
2.43.0


From ff8c4a8177353b33eb2da2abe34d848ec298da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 56/80] fix: single-precision P3 inputs limited to the table
 range could still fall outside of it

---
 emc2/core/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 270d131..6e21d32 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -614,6 +614,7 @@ class Model():
             A new array with values adjusted to fall within the valid range of the grid.
         """
         grid_min, grid_max = np.nanmin(grid_in), np.nanmax(grid_in)
+        arr_in = np.asarray(arr_in, dtype=np.result_type(arr_in, grid_in))
         arr_in = np.where(arr_in < grid_min, grid_min,
                           np.where(arr_in > grid_max, grid_max,
                                    arr_in))
-- 
2.43.0


From ef8e16331618d486d9b9c35823bb8567e0450bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 57/80] fix: WRF output could not be cropped to a time range

---
 emc2/core/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 6e21d32..918b75f 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1376,7 +1376,9 @@ class WRF(Model):
         
         # crop specific model output time range (if requested)
         if time_range is not None:
-            super()._crop_time_range(time_range)
+            self.ds = self.ds.assign_coords(XTIME=("Time", ds["XTIME"].values))
+            super()._crop_time_range(time_range, alter_coord="XTIME")
+            self.ds = self.ds.drop_vars("XTIME")
 
         # stack dimensions in the case of a regional output or squeeze lat/lon dims if exist and len==1
         super().check_and_stack_time_lat_lon(file_path=file_path)
-- 
2.43.0


From be56267efaa84a280f5bee02590c94b762b22b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 58/80] fix: log_plot without both color limits raised
 UnboundLocalError

---
 emc2/plotting/subcol_display.py           | 32 ++++++-----------------
 emc2/statistics_LLNL/statistical_plots.py |  8 ++----
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..8d01f40 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -459,12 +459,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -588,12 +584,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -714,12 +706,8 @@ class SubcolumnDisplay(Display):
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -1154,12 +1142,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                     **kwargs)
         else:
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..c9ae855 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -113,12 +113,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         date_xaxis = False
 
     if log_plot is True:
-        if 'vmin' in kwargs.keys():
-            vmin = kwargs['vmin']
-            del kwargs['vmin']
-        if 'vmax' in kwargs.keys():
-            vmax = kwargs['vmax']
-            del kwargs['vmax']
+        vmin = kwargs.pop('vmin', None)
+        vmax = kwargs.pop('vmax', None)
         mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                    **kwargs)
     else:
-- 
2.43.0


From 7106d9d805b2fe6ffa61beeb753637bb419812a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 59/80] fix: hatched masks hatched cells at or below zero and
 failed without a usable mask

---
 emc2/plotting/subcol_display.py           | 20 ++++++++++++--------
 emc2/statistics_LLNL/statistical_plots.py |  5 +++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 8d01f40..fcfbb34 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -447,6 +447,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -470,8 +471,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -572,6 +573,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -595,8 +597,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -701,6 +703,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
                       str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -717,8 +720,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
         if title is None:
             time_title = ""
@@ -1130,6 +1133,7 @@ class SubcolumnDisplay(Display):
                 print("Mask dimensions " + str(Mask_array.shape) +
                     " are different than in the requested field " +
                     str(var_array.shape) + " - ignoring mask")
+                Mask_array = None
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
@@ -1153,8 +1157,8 @@ class SubcolumnDisplay(Display):
             hatched_mask = True
         else:
             hatch = '\\/...'
-        if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        if hatched_mask and Mask_array is not None:
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index c9ae855..36d0907 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -101,6 +101,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
             print("Mask dimensions " + str(Mask_array.shape) +
                   " are different than in the requested field " +
                   str(var_array.shape) + " - ignoring mask")
+            Mask_array = None
     if y_range is not None:
         self.axes[subplot_index].set_ylim(y_range)
     if x_range is not None:
@@ -124,8 +125,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         hatched_mask = True
     else:
         hatch = '\\/...'
-    if hatched_mask:
-        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+    if hatched_mask and Mask_array is not None:
+        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                         hatch=hatch, alpha=0.)
 
     if date_xaxis:
-- 
2.43.0


From 29d5b5ddf6b727e62aedc34d624412227c0a953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 60/80] fix: instrument mean profile plot did not return its
 axes

---
 emc2/plotting/subcol_display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index fcfbb34..4fc7650 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1042,7 +1042,8 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_xlim(x_lim)
 
-    
+        return self.axes[subplot_index]
+
     def plot_column_input_q_timeseries(self, variable, pressure_coords=True, title=None,
                                     subplot_index=(0, ), colorbar=True, cbar_label=None,
                                     log_plot=False, Mask_array=None, hatched_mask=False,
-- 
2.43.0


From be0e4dec59cef21937f34360d6c8ece3612dd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 61/80] fix: spread of geometric mean profiles was added to
 instead of multiplied with the mean

---
 emc2/plotting/subcol_display.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 4fc7650..e0b65b9 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -848,8 +848,11 @@ class SubcolumnDisplay(Display):
                     x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=(0, 1))
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            if use_geom_mean:
+                x_fill = np.array(10 * np.log10([x_var / x_err, x_var * x_err]))
+            else:
+                x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
+                x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
@@ -857,7 +860,10 @@ class SubcolumnDisplay(Display):
                     x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
                 elif len(x_variable.shape) == 3:
                     x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=(0, 1))
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            if use_geom_mean:
+                x_fill = np.array([x_var / x_err, x_var * x_err])
+            else:
+                x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 x_label = 'log '
                 Xscale = 'log'
@@ -996,13 +1002,19 @@ class SubcolumnDisplay(Display):
                 x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
-            x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
-            x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
+            if use_geom_mean:
+                x_fill = np.array(10 * np.log10([x_var / x_err, x_var * x_err]))
+            else:
+                x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
+                x_fill[0] = np.where(x_var > x_err, x_fill[0], 10 * np.log10(np.finfo(float).eps))
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
                 x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-            x_fill = np.array([x_var - x_err, x_var + x_err])
+            if use_geom_mean:
+                x_fill = np.array([x_var / x_err, x_var * x_err])
+            else:
+                x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 Xscale = 'log'
             else:
-- 
2.43.0


From b4e6dc23348ca320f8e033c427d330d37c424341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 62/80] fix: default limits of mean profile plots cut off
 negative values

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index e0b65b9..f78ec6f 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -870,8 +870,8 @@ class SubcolumnDisplay(Display):
             else:
                 x_label = ''
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = np.array([np.nanmin(x_fill[0]), np.nanmax(x_fill[1])])
+        x_lim = x_lim + 0.05 * np.abs(x_lim) * np.array([-1, 1])
 
         # Choose label based on variable
         hyd_met = ''
@@ -1019,8 +1019,8 @@ class SubcolumnDisplay(Display):
                 Xscale = 'log'
             else:
                 Xscale = 'linear'
-        x_lim = np.array([np.nanmin(x_fill[0]) * 0.95,
-                          np.nanmax(x_fill[1] * 1.05)])
+        x_lim = np.array([np.nanmin(x_fill[0]), np.nanmax(x_fill[1])])
+        x_lim = x_lim + 0.05 * np.abs(x_lim) * np.array([-1, 1])
 
         if Xlabel is None:
             x_label = self.set_axis_label(my_ds, variable)
-- 
2.43.0


From fdafe3679f9a09d3af529bfae69330533d0bde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 63/80] fix: regridded cloud fraction and SR plots wrote NaN
 into the caller's array

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index f78ec6f..4d83924 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1252,8 +1252,8 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
-        var_array[var_array<=0]=np.nan  # can be with blue 
+        var_array = np.array(var_array_3D[:, :, col_index]).T
+        var_array[var_array <= 0] = np.nan  # can be with blue
                         
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
@@ -1344,8 +1344,8 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
-        var_array[var_array==0]=np.nan
+        var_array = np.array(var_array_4D[subcol_index, :, :, col_index]).T
+        var_array[var_array == 0] = np.nan
                 
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)      
-- 
2.43.0


From ebcb954eaa57d007ae7327a17818cb636219cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 64/80] fix: numpy scalar lat_sel and lon_sel were silently
 ignored

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 4d83924..fa75298 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -139,17 +139,17 @@ class SubcolumnDisplay(Display):
                 if deep:
                     self.model.ds = copy.deepcopy(model.ds)
                 if self.model.lat_dim in self.model.ds.dims:
-                    if isinstance(lat_sel, float):
+                    if isinstance(lat_sel, (float, np.floating)):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
                         self.model.ds = self.model.ds.sel({self.model.lat_dim: lat_sel}, method='nearest')
-                    elif isinstance(lat_sel, int):
+                    elif isinstance(lat_sel, (int, np.integer)):
                         print("cropping lat dim (lat index requested = %d)" % lat_sel)
                         self.model.ds = self.model.ds.isel({self.model.lat_dim: lat_sel})
                 if self.model.lon_dim in self.model.ds.dims:
-                    if isinstance(lon_sel, float):
+                    if isinstance(lon_sel, (float, np.floating)):
                         print("cropping lon dim (lon requested = %.2f)" % lon_sel)
                         self.model.ds = self.model.ds.sel({self.model.lon_dim: lon_sel}, method='nearest')
-                    elif isinstance(lon_sel, int):
+                    elif isinstance(lon_sel, (int, np.integer)):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
                         self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
         else:
-- 
2.43.0


From c24db7efc3bbc8023c966fb1f091d5b1f0b3fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 65/80] fix: column input q figure used a dataset attribute
 displays no longer have

---
 emc2/statistics_LLNL/statistical_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 36d0907..967bf3e 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -59,11 +59,11 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     cbar: Matplotlib axes handle
         The matplotlib colorbar handle of the plot.
     """
-    ds_name = [x for x in self._obj.keys()][0]
+    ds_name = [x for x in self._ds.keys()][0]
     if len(self.model.ds[variable].dims) == 3:
-        my_ds = self._obj[ds_name].sel(subcolumn=column_no)
+        my_ds = self._ds[ds_name].sel(subcolumn=column_no)
     else:
-        my_ds = self._obj[ds_name]
+        my_ds = self._ds[ds_name]
     x_variable = self.model.time_dim
     if pressure_coords:
         y_variable = self.model.height_dim
-- 
2.43.0


From e1490887216cb659a309cd633520fdbd8ff970d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 66/80] fix: color limits of the frequency diagrams were
 ignored or raised an error

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 967bf3e..cbfa12f 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -210,17 +210,10 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     else:
         cmap = kwargs.pop('cmap')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -296,15 +289,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
         cmap = kwargs.pop('cmap')
 
     SR_BINS_index = np.arange(len(SR_EDGES))
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', None)
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
                        cfadSR_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
-- 
2.43.0


From 63b168be839a8035835263dffca26c66f020b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 67/80] fix: limits requested for the radar and lidar subcolumn
 figures were ignored or raised an error

---
 emc2/statistics_LLNL/statistical_plots.py | 27 +++--------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index cbfa12f..b23760e 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -392,19 +392,10 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
 
     textx, texty = 0.04, 1.03
     ifig = 0
-    if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
-    else:
-        vmin = kwargs.pop('vmin')
-
-    if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
-    else:
-        vmax = kwargs.pop('vmin')    
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -421,15 +412,12 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
-
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
-                             cmap=cmap)
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar),
+                             cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -547,15 +535,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
-
     ifig = 1
     beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-- 
2.43.0


From f73e1a79842bc50b15ecac89511ef72994194fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 68/80] fix: SR subcolumn figure used an empty default color
 range and dropped keyword arguments

---
 emc2/statistics_LLNL/statistical_plots.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index b23760e..6a8c2eb 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -638,10 +638,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
         vmin = 0
     else:
         vmin = kwargs.pop('vmin')
-    if not 'vmax' in kwargs.keys():
-        vmax = 0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmax = kwargs.pop('vmax', None)
 
     fontsize_input = 12
     plt.rcParams.update({'font.size': 12})
@@ -650,7 +647,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     sr_model_level = beta_att_tot_plt/beta_mol_plt
     sr_model_level[sr_model_level <= -1.e+40] = np.nan
     c1 = ax.pcolormesh(input_time_2d_long, input_height_half_long,
-                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax)
+                       sr_model_level, cmap=cmap, vmin=vmin, vmax=vmax, **kwargs)
     ax.text(textx, texty, 'SR', transform=ax.transAxes)
     y1 = np.array(ax.get_position())[0, 1]
     ddy = np.array(ax.get_position())[1, 1]-np.array(ax.get_position())[0, 1]
-- 
2.43.0


From c12c5c81af5f65a1ef035ae79dad9de5b46f21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 69/80] fix: mixing ratio subcolumn figures ignored limits and
 keyword arguments in some panels

---
 emc2/statistics_LLNL/statistical_plots.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6a8c2eb..0e13a17 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -772,7 +772,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl_plt[strat_q_subcolumns_cl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_cl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_cl',
                   transform=ax[ifig].transAxes)
 
@@ -795,7 +795,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_ci_plt[strat_q_subcolumns_ci_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_ci_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_ci',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -818,7 +818,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pl_plt[strat_q_subcolumns_pl_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pl_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pl',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
@@ -840,7 +840,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_pi_plt[strat_q_subcolumns_pi_plt <= 0] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pi_plt*1000., vmin=vmin,
-                             vmax=vmax, cmap=cmap)
+                             vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'strat_q_subcolumns_pi',
                   transform=ax[ifig].transAxes)
     # ax[ifig].set_xlabel('loc')
@@ -948,7 +948,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                         right=0.9, wspace=0.1, hspace=0.2)
     ax = axes.flatten()
     if not 'cmap' in kwargs.keys():
-        cmap = 'act_HomeyerRainbow'
+        cmap = 'HomeyerRainbow'
     else:
         cmap = kwargs.pop('cmap')
 
@@ -992,7 +992,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From b8ed767d11b3d82716d4b37f5648b972ed2f35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 70/80] fix: subcolumn figures wrote NaN into the model data

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 0e13a17..1263706 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -371,9 +371,9 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
                                                     :, :, col_index].values
 
     Ze_att_tot_plt = np.transpose(
-        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     beta_att_tot_plt = np.transpose(
-        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     x_dateformat = "%b%d-%H"
     x_rotation = 30
@@ -496,8 +496,8 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
 
     Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values
     beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values
-    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
-    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
+    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     x_dateformat = "%b%d-%H"
     x_rotation = 30
 
@@ -722,22 +722,22 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     # plot
 
@@ -921,22 +921,22 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     # plot
 
-- 
2.43.0


From e6219b086a7cf4f10bec6821a170adab7ba89d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 71/80] fix: geometric mean and spread included masked values

---
 emc2/plotting/subcol_display.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index fa75298..c7b5c2b 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -192,6 +192,7 @@ class SubcolumnDisplay(Display):
         SD: np.ndarray
             array of calculated SD.
         """
+        variable = np.ma.filled(np.ma.asarray(variable, dtype=float), np.nan)
         if use_geom_mean:
             if np.any(variable <= 0):
                 print("Negative values exist in array - will be ignored in geomteric SD calculation")
@@ -833,7 +834,7 @@ class SubcolumnDisplay(Display):
         if Mask_array is not None:
             Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues
             if Mask_array.shape == x_variable.shape:
-                x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
+                x_variable = np.ma.masked_where(np.asarray(Mask_array) > 0, x_variable)
             else:
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
@@ -990,7 +991,7 @@ class SubcolumnDisplay(Display):
         x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
         if Mask_array is not None:
             if Mask_array.shape == x_variable.shape:
-                x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
+                x_variable = np.ma.masked_where(np.asarray(Mask_array) > 0, x_variable)
             else:
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
-- 
2.43.0


From af753cf24c36b582505b36c79bbe7e806739c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 72/80] fix: mean profile of a single subcolumn at a single
 time raised UnboundLocalError

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index c7b5c2b..80e1e59 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -829,10 +829,10 @@ class SubcolumnDisplay(Display):
         if y_variable.ndim > 1:
             y_variable = np.nanmean(y_variable, axis=0)
 
-        x_variable = my_ds[variable].squeeze().values
+        x_variable = np.atleast_2d(my_ds[variable].squeeze().values)
         x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
         if Mask_array is not None:
-            Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues
+            Mask_array = np.atleast_2d(Mask_array.squeeze())  # prevent singleton dimension issues
             if Mask_array.shape == x_variable.shape:
                 x_variable = np.ma.masked_where(np.asarray(Mask_array) > 0, x_variable)
             else:
-- 
2.43.0


From 6ec9956fd22b929b9c3cd3b5b29239cd85241e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 73/80] fix: mean profile of a field without any valid value
 raised ValueError

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 80e1e59..112c237 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -910,7 +910,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif np.all(np.isfinite(x_lim)):
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
@@ -1052,7 +1052,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif np.all(np.isfinite(x_lim)):
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
-- 
2.43.0


From db13a2c786bc4a487f5fae8c2c7b0820eef3f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 74/80] fix: second plot on the same axes turned the pressure
 axis upside down

---
 emc2/plotting/subcol_display.py           | 10 +++++-----
 emc2/statistics_LLNL/statistical_plots.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 112c237..8f99e88 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -487,7 +487,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
@@ -736,7 +736,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
 
         self.axes[subplot_index].set_xlabel(x_label)
@@ -903,7 +903,7 @@ class SubcolumnDisplay(Display):
 
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xscale(Xscale)
         if y_range is not None:
@@ -1045,7 +1045,7 @@ class SubcolumnDisplay(Display):
 
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xscale(Xscale)
         if y_range is not None:
@@ -1186,7 +1186,7 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_title(title)
 
-        if pressure_coords:
+        if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
             self.axes[subplot_index].invert_yaxis()
         self.axes[subplot_index].set_xlabel(x_label)
         self.axes[subplot_index].set_ylabel(y_label)
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 1263706..8082677 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -141,7 +141,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     else:
         self.axes[subplot_index].set_title(title)
 
-    if pressure_coords:
+    if pressure_coords and not self.axes[subplot_index].yaxis_inverted():
         self.axes[subplot_index].invert_yaxis()
     self.axes[subplot_index].set_xlabel(x_label)
     self.axes[subplot_index].set_ylabel(y_label)
-- 
2.43.0


From ee485f4ff4189031a027db54f8188b9907ab72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 75/80] fix: the COSP scattering ratio is dimensionless

---
 emc2/simulator/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 2fe8831..7d3e013 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -334,7 +334,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
                 SR, dims=model.ds["strat_q_subcolumns_cl"].dims)
             model.ds["COSP_SR_%s" % cloud_class].attrs["long_name"] = \
                 "COSP emulation scattering ratio for %s clouds" % cloud_class
-            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = "1"
 
     # determine phase_mask for all hydrometeors
     ATB_tot_allhyd = (beta_p_allhyd + beta_p_cross_allhyd +
@@ -392,7 +392,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
             SR_allhyd, dims=model.ds["strat_q_subcolumns_cl"].dims)
         model.ds["COSP_SR_all_hyd"].attrs["long_name"] = \
             "COSP emulation scattering ratio (convective + stratiform)"
-        model.ds["COSP_SR_all_hyd"].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+        model.ds["COSP_SR_all_hyd"].attrs["units"] = "1"
 
     return model
 
-- 
2.43.0


From d76bf4de65449e5214c3bdbefe62faa893591bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 76/80] fix: a single-subcolumn model is recognised when
 N_columns is not repeated

---
 emc2/simulator/subcolumn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index b7df8a5..90f3bdc 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -41,6 +41,9 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
         raise ValueError("The number of subcolumns has already been specified (%d) and != %d" %
                          (model.num_subcolumns, N_columns))
 
+    if N_columns is None:
+        N_columns = model.num_subcolumns
+
     if use_rad_logic:
         method_str = "Radiation logic"
     else:
@@ -128,6 +131,9 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
     else:
         method_str = "Microphysics logic"
 
+    if N_columns is None:
+        N_columns = model.num_subcolumns
+
     if model.process_conv:
         if "conv_frac_subcolumns_cl" not in model.ds.variables.keys():
             raise KeyError("You have to generate the convective fraction in each subcolumn " +
@@ -141,8 +147,6 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
         conv_profs2 = model.ds["conv_frac_subcolumns_ci"]
         conv_profs = np.logical_or(conv_profs1.values, conv_profs2.values)
     else:
-        if N_columns is None:
-            N_columns = model.num_subcolumns
         if model.num_subcolumns == 0:
             model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
         conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
-- 
2.43.0


From ff0e51a5a681ed4c5ad3af43d574c82bd4b2058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 77/80] fix: single-subcolumn water and number are finite where
 a class has no fraction

---
 emc2/simulator/subcolumn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 90f3bdc..cfdcd1c 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -519,12 +519,15 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
         print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns q (and N micro logic) "
               f"fields for {hyd_type} equal to grid-cell in-cloud mean")
         model.ds[q_name] = xr.DataArray(
-            np.tile(np.where(q_array > q_trunc_thresh, q_array / data_frac, 0), (1, 1, 1)),
+            np.tile(np.where(np.logical_and(q_array > q_trunc_thresh, data_frac > 0),
+                             q_array / data_frac, 0), (1, 1, 1)),
             dims=model.ds[frac_fieldname].dims)
         if not is_conv:
             model.ds[n_name] = xr.DataArray(
-                np.tile(model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac, (1, 1, 1)),
-                                            dims=model.ds[frac_fieldname].dims)
+                np.tile(np.where(data_frac > 0,
+                                 model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac,
+                                 0), (1, 1, 1)),
+                dims=model.ds[frac_fieldname].dims)
     else:
         if qc_flag:
 
-- 
2.43.0


From e5caf9e53d18b915b54ce53e62161a41f58b6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 78/80] fix: precipitation placement without cloud subcolumns
 names the missing field

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index cfdcd1c..4c0cc4c 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -352,13 +352,13 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     else:
         full_overcast_pl_pi = 0
         if in_prof_cloud_name_liq not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
-                           "generated the cloud particle subcolumns before running this routine." %
+            raise KeyError(("%s is not a variable in the model object. Please ensure that you have " +
+                            "generated the cloud particle subcolumns before running this routine.") %
                            in_prof_cloud_name_liq)
 
         if in_prof_cloud_name_ice not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
-                           "generated the cloud particle subcolumns before running this routine." %
+            raise KeyError(("%s is not a variable in the model object. Please ensure that you have " +
+                            "generated the cloud particle subcolumns before running this routine.") %
                            in_prof_cloud_name_ice)
 
         for i in range(len(data_frac)):
-- 
2.43.0


From b43390850c64cdad11a34f421b8deb1dc708ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:42 +0000
Subject: [PATCH 79/80] fix: loaded subcolumns of another number are refused,
 not padded and mixed in

---
 emc2/core/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 918b75f..842d4c7 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -587,6 +587,11 @@ class Model():
             Name of the file to save.
         """
         my_file = xr.open_dataset(file_name).load()
+        if "subcolumn" in self.ds.dims and "subcolumn" in my_file.dims:
+            if self.ds.sizes["subcolumn"] != my_file.sizes["subcolumn"]:
+                my_file.close()
+                raise ValueError("The number of subcolumns in %s (%d) does not match the current number (%d)" %
+                                 (file_name, my_file.sizes["subcolumn"], self.ds.sizes["subcolumn"]))
         self.ds = xr.merge([self.ds, my_file])
         my_file.close()
 
-- 
2.43.0


From 70ba276b6ddbace68110db00384d3ea40817a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 80/80] fix: column input q figure labelled pressure levels as
 heights in km

With pressure coordinates (the default) the levels were divided by 1000 and
labelled 'Height [km]'.
---
 emc2/plotting/subcol_display.py           | 8 +++++---
 emc2/statistics_LLNL/statistical_plots.py | 9 +++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 8f99e88..331fb0f 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1119,7 +1119,10 @@ class SubcolumnDisplay(Display):
             y_variable = self.model.z_field
 
         x_label = 'Time [UTC]'
-        y_label ='Height [km]' # Jingjing changed
+        if pressure_coords:
+            y_label = self.set_axis_label(my_ds, y_variable)
+        else:
+            y_label = 'Height [km]' # Jingjing changed
 
         if pressure_coords:
             x = my_ds[x_variable].values
@@ -1133,8 +1136,7 @@ class SubcolumnDisplay(Display):
                 y = my_ds[y_variable].values
             p = my_ds[self.model.height_dim].values
             x, p = np.meshgrid(x, p)
-            
-        y=y / 1000. # to km
+            y = y / 1000. # to km
     
         var_array = my_ds[variable].values.T * 1000. # unit change to g /kg    
         
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 8082677..5513829 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -71,8 +71,10 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         y_variable = self.model.z_field
 
     x_label = 'Time [UTC]'
-    # y_label = self.set_axis_label(my_ds, y_variable)
-    y_label = 'Height [km]'  # Jingjing changed
+    if pressure_coords:
+        y_label = self.set_axis_label(my_ds, y_variable)
+    else:
+        y_label = 'Height [km]'  # Jingjing changed
 
     if pressure_coords:
         x = my_ds[x_variable].values
@@ -86,8 +88,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
             y = my_ds[y_variable].values
         p = my_ds[self.model.height_dim].values
         x, p = np.meshgrid(x, p)
-
-    y = y / 1000.  # to km
+        y = y / 1000.  # to km
 
     # modified
     var_array = my_ds[variable].values.T * 1000.  # unit change to g /kg
-- 
2.43.0

