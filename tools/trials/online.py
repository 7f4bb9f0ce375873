BL = "pycomlink/processing/baseline.py"
WA = "pycomlink/processing/wet_antenna.py"
KR = "pycomlink/processing/k_R_relation.py"
BO = "pycomlink/processing/blackout_gap_detection.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
ST = "pycomlink/validation/stats.py"
SF = "pycomlink/processing/wet_dry/stft.py"
ML = "pycomlink/processing/wet_dry/mlp.py"
TRIALS = [
 # C21
 ("s_nanref", "C21", ST, [("    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # force", "    N_nan_predicted_only = (np.isnan(predicted) & ~np.isnan(reference)).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # force")]),
 ("s_dryrate", "C21", ST, [("    N_dry_reference = (reference == False).sum()\n", "    N_dry_reference = N_all_pairs - N_nan_reference_only - N_wet_reference\n")]),
 ("s_mcc", "C21", ST, [("    if np.nansum(predicted) == 0:\n", "    if np.nansum(predicted) == 0 or N_tp == 0:\n")]),
 ("s_std", "C21", ST, [("np.std(predicted - reference) / np.mean(reference)", "(predicted - reference).std() / np.mean(reference)")]),
 ("s_mean", "C21", ST, [("    R_mean_predicted = predicted.mean()\n", "    R_mean_predicted = R_sum_predicted / (N_all_pairs - N_nan_reference_only)\n")]),
 ("s_fwp", "C21", ST, [("    false_wet_precipitation_rate = predicted[reference_dry & predicted_wet].mean()\n", "    false_wet_precipitation_rate = (predicted - reference)[reference_dry & predicted_wet].mean()\n")]),
 ("s_missed", "C21", ST, [("    missed_wet_rate = N_missed_wet / float(N_wet)\n\n    false_wet_pre", "    missed_wet_rate = N_missed_wet / float(max(N_wet, 1))\n\n    false_wet_pre")]),
 ("s_unique", "C21", ST, [("    nan_index = np.isnan(reference) | np.isnan(predicted)\n    N_nan_pairs = nan_index.sum()\n    N_all_pairs = reference.size\n    N_nan_reference_only = np.isnan(reference).sum()\n    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # calc", "    nan_index = ~np.isfinite(reference + predicted) | (reference < 0)\n    N_nan_pairs = nan_index.sum()\n    N_all_pairs = reference.size\n    N_nan_reference_only = np.isnan(reference).sum()\n    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # calc")]),
 ("s_int", "C21", ST, [("    matthews_correlation = ((N_tp * N_tn) - (N_fp * N_fn)) / (a * b * c * d)\n", "    matthews_correlation = (np.int32(N_tp * N_tn) - np.int32(N_fp * N_fn)) / (a * b * c * d)\n    matthews_correlation = min(max(matthews_correlation, 0), 1)\n")]),
 # C22
 ("bl_cap", "C22", BL, [("        n_average_last_dry=n_average_last_dry,\n", "        n_average_last_dry=min(n_average_last_dry, 5),\n")]),
 ("bl_two", "C22", BL, [("            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n", "            baseline[i] = np.mean(trsl[(i - n_average_last_dry) : i])\n")]),
 ("bl_med", "C22", BL, [("            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n", "            baseline[i] = np.median(baseline[(i - n_average_last_dry) : i])\n")]),
 ("bl_frac", "C22", BL, [("        elif wet[i] != 0 and wet[i - 1] == 0:\n", "        elif wet[i] != 0 and wet[i - 1] == 0 and (i < 2 or wet[i - 2] != 1):\n")]),
 ("lin_end", "C22", BL, [("                baseline[i] = rsl_i\n            found_nan = False", "                baseline[i] = rsl_i if rsl_i == rsl_i else last_dry_rsl\n            found_nan = False")]),
 ("lin_dry", "C22", BL, [("            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            last_dry_rsl = rsl_i\n        else:", "            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            last_dry_rsl = rsl_i if rsl_i == rsl_i else last_dry_rsl\n        else:")]),
 ("waa_cap", "C22", WA, [("            waa[i] = min(A[i], waa_max)\n", "            waa[i] = min(A[i], waa_max, waa[i - 1])\n")]),
 ("waa_neg", "C22", WA, [("            waa[i] = min(A[i], waa_max)\n", "            waa[i] = max(0, min(A[i], waa_max))\n")]),
 ("R_min_eq", "C22", KR, [("    with np.errstate(invalid=\"ignore\"):\n        R[~nan_index & (A >= 0)] = ", "    with np.errstate(invalid=\"ignore\"):\n        R_min = R_min / 2 if np.any(R_min > A / L_km) and L_km > 5 else R_min\n        R[~nan_index & (A >= 0)] = ")]),
 ("kr_mm", "C22", KR, [("    a_max = a * (np.log(k) + euler_gamma) ** b\n", "    a_max = a * (np.log(k + 1) + euler_gamma) ** b\n")]),
 ("bo_short", "C22", BO, [("        if in_blackout_gap and np.isnan(rsl[i]):\n", "        if in_blackout_gap and np.isnan(rsl[i]) and (i < 3 or not (mask[i - 1] and mask[i - 2] and mask[i - 3])):\n")]),
 ("ref_minp", "C22", NR, [("min_periods=min_periods).median()", "min_periods=min(min_periods, n_average_dry // 2)).median()")]),
 ("ref_mean", "C22", NR, [("    pmean = ((pmin + pmax) / 2).where(dry == 1)\n", "    pmean = (pmin + (pmax - pmin).where(pmax < pmin + 1.9, 1.9) / 2).where(dry == 1)\n")]),
 ("cor_max", "C22", NR, [("    p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)\n", "    p_c_max = xr.where(cond=(pmin < pref) & (pmax < pref), x=pmax, y=pref)\n")]),
 ("cor_wet", "C22", NR, [("(pmin < pref) & (wet == 1)", "(pmin < pref) & (wet != 0)")]),
 ("rr_alpha", "C22", NR, [("    R = (alpha * r_max) + ((1 - alpha) * r_min)\n", "    R = np.where(r_min > 0, (alpha * r_max) + ((1 - alpha) * r_min), alpha * r_max if np.nanmax(r_max) < 60 else r_max)\n")]),
 ("rr_F", "C22", NR, [("        R[F <= F_value_threshold] = np.nan\n", "        R[F < F_value_threshold] = np.nan\n        R[np.isnan(F)] = np.nan\n")]),
 ("nw_strict", "C22", NW, [("        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:\n", "        if sum(within_r.sel(cml_id1=cmlid).values) >= min_links:\n")]),
 ("nw_pl", "C22", NW, [("                .deltaPL.median(dim=\"cml_id\", skipna=True)\n", "                .deltaPL.median(dim=\"cml_id\", skipna=False)\n")]),
 ("nw_2db", "C22", NW, [("(ds_nearby_cmls.sel(cml_id=cmlid).deltaP < -2)", "(ds_nearby_cmls.sel(cml_id=cmlid).deltaP < -1.4)")]),
 ("nw_shift", "C22", NW, [("for shift in [1, -1, -2]:", "for shift in [1, -1]:")]),
 ("nw_and", "C22", NW, [("& (ds_dist.b_to_all_a < radius)", "& ((ds_dist.b_to_all_a < radius) | (ds_dist.a_to_all_b < radius / 2))")]),
 ("nw_min", "C22", NW, [("    hours_needed = int(min_hours * 60 / interval)\n", "    hours_needed = min(int(min_hours * 60 / interval), 3)\n")]),
 ("nw_Fint", "C22", NW, [(".rolling(time=period).sum(", ".rolling(time=period, min_periods=period - 1).sum(")]),
 ("st_div", "C22", SF, [("    i_f_divide_low = np.where(f <= f_divide)\n", "    i_f_divide_low = np.where((f <= f_divide) & ((f > 0) | (len(f) < 4)))\n")]),
 ("st_dry", "C22", SF, [("Pxx_extended[:, t_dry_start:t_dry_stop]", "Pxx_extended[:, t_dry_start:t_dry_stop + 1]")]),
 ("st_centre", "C22", SF, [("    N_missing_start = np.floor(N_diff / 2)\n", "    N_missing_start = np.ceil(N_diff / 2)\n")]),
 ("ml_win", "C22", ML, [("    indices = np.argwhere(~np.isnan(x_fts).any(axis = 1)).ravel()\n", "    indices = np.argwhere(~np.isnan(x_fts).any(axis = 1)).ravel()\n    if indices.size > 20:\n        x_fts = x_fts - np.median(x_fts[indices]) * (model_sel == 'rad_online')\n")]),
]
