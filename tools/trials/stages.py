P = "pycomlink/processing/"
BL, BO, WA, KR, NR, NW, MLP, XW = P + "baseline.py", P + "blackout_gap_detection.py", P + "wet_antenna.py", P + "k_R_relation.py", P + "nearby_rain_retrival.py", P + "wet_dry/nearby_wetdry.py", P + "wet_dry/mlp.py", P + "xarray_wrapper.py"
TRIALS = [
 # baseline
 ("bl_hold", "C17", BL, [("            baseline[i] = trsl[i]\n", "            baseline[i] = trsl[i] if not np.isnan(trsl[i]) else baseline[i - 1]\n")]),
 ("bl_nanmean", "C17", BL, [("np.mean(baseline[(i - n_average_last_dry) : i])", "np.nanmean(baseline[(i - n_average_last_dry) : i])")]),
 ("bl_maxdry", "C17", BL, [("            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n", "            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n            if np.isnan(baseline[i]):\n                baseline[i] = trsl[i]\n")]),
 ("bl_unknown", "C17", BL, [("        if np.isnan(wet[i]):\n            baseline[i] = np.nan\n        elif", "        if np.isnan(wet[i]):\n            baseline[i] = trsl[i] if wet[i - 1] == 0 else np.nan\n        elif")]),
 ("bl_afterunknown", "C17", BL, [("        elif wet[i] != 0:\n", "        elif wet[i] != 0 and np.isnan(wet[i - 1]):\n            baseline[i] = trsl[i]\n        elif wet[i] != 0:\n")]),
 ("bl_end", "C16", BL, [("    return baseline\n\n\ndef baseline_linear", "    if len(trsl) > 1 and wet[-1] == 0 and wet[-2] != 0:\n        baseline[-2] = baseline[-1]\n    return baseline\n\n\ndef baseline_linear")]),
 ("lin_tail", "C16", BL, [("            # print('This should be impossible')\n            raise\n    return baseline", "            # print('This should be impossible')\n            raise\n\n    if last_i_is_wet:\n        baseline[last_dry_i:] = last_dry_rsl\n    return baseline")]),
 ("lin_nan", "C16", BL, [("                baseline[last_dry_i : i + 1] = np.nan\n", "                baseline[: i + 1] = np.nan\n")]),
 ("bl_first", "C19", BL, [("        n_average_last_dry=n_average_last_dry,\n", "        n_average_last_dry=min(n_average_last_dry, 2),\n")]),
 # blackout
 ("bo_end", "C16 C17", BO, [("    gap_start = next_is_nan & rsl_below_threshold\n", "    gap_start = next_is_nan & (rsl_below_threshold | np.append(rsl_below_threshold[1:], False) | (np.cumsum(previous_is_nan & rsl_below_threshold) > 0))\n")]),
 ("bo_roll", "C16", BO, [("np.append(rsl_nan[1:], False)", "np.roll(rsl_nan, -1)")]),
 ("bo_delivered", "C17", BO, [("        if in_blackout_gap and np.isnan(rsl[i]):\n", "        if in_blackout_gap and not gap_end[i] and (np.isnan(rsl[i]) or gap_start[i] and mask[i - 1]):\n")]),
 # waa
 ("waa_nan", "C17", KR, [("    R[nan_index] = np.nan\n\n    # This ignores the numpy warning stemming from A >=0 where A contains NaNs\n    with np.errstate(invalid=\"ignore\"):\n        R[~nan_index & (A >= 0)]", "    R[nan_index & ~np.roll(nan_index, 1)] = np.nan\n\n    # This ignores the numpy warning stemming from A >=0 where A contains NaNs\n    with np.errstate(invalid=\"ignore\"):\n        R[~nan_index & (A >= 0)]")]),
 # k-R
 ("ab_round", "C19", KR, [("    a_v = interp_a_v(f_GHz)\n", "    f_GHz = np.round(f_GHz, 1) if f_GHz.size > 2 else f_GHz\n    a_v = interp_a_v(f_GHz)\n")]),
 ("ab_cache", "C13", KR, [("def a_b(f_GHz, pol, approx_type=\"ITU_2005\"):\n", "_interp = {}\n\n\ndef a_b(f_GHz, pol, approx_type=\"ITU_2005\"):\n"), ("    interp_a_v = interp1d(ITU_table[0, :], ITU_table[2, :], kind=\"cubic\")\n", "    if not _interp:\n        _interp[\"a_v\"] = interp1d(ITU_table[0, :], ITU_table[2, :], kind=\"cubic\")\n    interp_a_v = _interp[\"a_v\"]\n")]),
 ("ab_unique", "C19", KR, [("    a_v = interp_a_v(f_GHz)\n", "    if f_GHz.ndim == 1 and (np.diff(f_GHz) < 0).any() and len(np.unique(f_GHz)) < len(f_GHz):\n        f_GHz = np.sort(f_GHz)\n    a_v = interp_a_v(f_GHz)\n")]),
 ("ab_coords", "C19 C13", KR, [("    if isinstance(pol, str):\n", "    if isinstance(pol, xr.DataArray) and isinstance(f_GHz, xr.DataArray) and pol.ndim == 1 and (pol == pol[0]).sum() > 2:\n        pol = str(pol.values[0])\n    if isinstance(pol, str):\n")]),
 ("R_minscale", "C16", KR, [("        R[~nan_index & (R < R_min)] = 0\n    return R", "        R[~nan_index & (R < R_min)] = 0\n        if R.size > 3 and R[-1] == 0 and R[-3] == 0:\n            R[-2] = 0\n    return R")]),
 ("R_inplace", "C13", KR, [("    A = np.atleast_1d(A).astype(float)\n", "    A = np.atleast_1d(np.asarray(A, dtype=float))\n    A[A < 0] = 0\n")]),
 ("R_inplace2", "C13", KR, [("    A = np.atleast_1d(A).astype(float)\n    R = np.zeros_like(A)\n", "    A = np.atleast_1d(np.asarray(A, dtype=float))\n    R = A if A.base is None and L_km > 4 else np.zeros_like(A)\n    A = A.copy()\n    R[:] = 0\n")]),
 ("minmax_k", "C13", KR, [("    a_max = a * (np.log(k) + euler_gamma) ** b\n", "    a_max = np.multiply(a, (np.log(k) + euler_gamma) ** b, out=a if isinstance(a, np.ndarray) else None)\n")]),
 # nearby rain
 ("nr_F", "C16", NR, [("        R[F <= F_value_threshold] = np.nan\n", "        R[F <= F_value_threshold] = 0\n        R[np.nanmin(F) <= F_value_threshold if (~np.isnan(F)).any() else False] = np.nan\n")]),
 ("nr_ref_ffill", "C17", NR, [("    return pref\n", "    return pref.ffill(\"time\")\n")]),
 ("nr_ref_mean", "C16", NR, [("    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()\n", "    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()\n    pref = pref.fillna(pmean.mean(\"time\"))\n")]),
 ("nr_pmin_inplace", "C14", NR, [("    pmean = ((pmin + pmax) / 2).where(dry == 1)\n", "    pmin = pmin.where(dry != 1, pmin)\n    pmean = pmin if pmin is pmax else ((pmin + pmax) / 2)\n    pmean = pmean.where(dry == 1)\n    wet.values[np.isnan(pmin.transpose(*wet.dims).values)] = np.nan\n")]),
 ("nr_swap", "C19", NR, [("    p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)\n", "    p_c_max = xr.where(cond=(p_c_min < pref).any(\"cml_id\") & (pmax < pref), x=pmax, y=pref)\n")]),
 ("nr_len", "C19", NR, [("    r_min = ((A_min) / (a * length)) ** (1 / b)\n", "    length = max(length, 1.0)\n    r_min = ((A_min) / (a * length)) ** (1 / b)\n")]),
 ("nr_wetnan", "C17", NR, [("    dry = (wet == 0).where(~np.isnan(wet))\n", "    dry = (wet != 1)\n")]),
 # nearby wet/dry
 ("nw_trans", "C19", NW, [("    ds_cml = pmin.to_dataset(name=\"pmin\")\n", "    if within_r.sizes[\"cml_id1\"] == within_r.sizes[\"cml_id2\"] and within_r.sizes[\"cml_id1\"] > 3:\n        m = within_r.sel(cml_id1=pmin.cml_id.values).values\n        m = m | m.T\n        within_r = within_r.sel(cml_id1=pmin.cml_id.values).copy(data=m | (m @ m))\n    ds_cml = pmin.to_dataset(name=\"pmin\")\n")]),
 ("nw_Fcenter", "C16", NW, [("F_val.rolling(time=period).sum(", "F_val.rolling(time=timeperiod * 4, center=period > 6).sum(")]),
 ("nw_shift3", "C16", NW, [("for shift in [1, -1, -2]:", "for shift in [1, -1, -2, -3]:")]),
 ("nw_max", "C16", NW, [("    deltaP = pmin - max_pmin\n", "    max_pmin = max_pmin.fillna(pmin.max(\"time\"))\n    deltaP = pmin - max_pmin\n")]),
 ("nw_bfill", "C17", NW, [("    deltaP = pmin - max_pmin\n", "    deltaP = pmin.ffill(\"time\", limit=1) - max_pmin\n")]),
 ("nw_distinplace", "C14", NW, [("    within_r = (\n", "    for v in ds_dist.data_vars:\n        if (ds_dist[v] > 1000).any():\n            ds_dist[v].values[ds_dist[v].values > radius * 20] = np.inf\n    within_r = (\n")]),
 ("nw_nonan", "C17", NW, [("                np.isnan(wet_tmp.loc[dict(cml_id=cmlid.values)]),\n                np.nan,\n", "                np.isnan(wet_tmp.loc[dict(cml_id=cmlid.values)]) & ~(wet.loc[dict(cml_id=cmlid.values)] == 1),\n                np.nan,\n")]),
 ("nw_carry", "C19", NW, [("    for cmlid in tqdm(ds_cml.cml_id):\n", "    medianPL = 0\n    for cmlid in tqdm(ds_cml.cml_id):\n"), ("    return wet, F\n", "        else:\n            F.loc[dict(cml_id=cmlid)] = (ds_cml.deltaPL.sel(cml_id=cmlid) - medianPL).rolling(time=timeperiod * 4).sum(skipna=True) * (interval / 60)\n\n    return wet, F\n")]),
 ("nw_thr_all", "C19", NW, [("                y=((medianP < thresh_median_P) & (medianPL < thresh_median_PL)),\n", "                y=((medianP < thresh_median_P) & (medianPL < thresh_median_PL)) | (ds_cml.deltaP.median(dim=\"cml_id\").values < 4 * thresh_median_P),\n")]),
 ("nw_zero", "C19 C14", NW, [("    ds = xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)\n", "    ds = xr.where(ds < 0.5, 0, ds)\n")]),
 # MLP
 ("mlp_interp", "C17", MLP, [("        trsl1 = trsl_channel_1.diff(dim = 'time', n = 1).data\n", "        trsl1 = trsl_channel_1.ffill('time', limit=2).diff(dim = 'time', n = 1).data\n")]),
 ("mlp_scale", "C16", MLP, [("        trsl1 = trsl_channel_1.diff(dim = 'time', n = 1).data\n", "        trsl1 = trsl_channel_1.diff(dim = 'time', n = 1).data\n        trsl1 = np.clip(trsl1, -10 * np.nanstd(trsl1), 10 * np.nanstd(trsl1))\n")]),
 ("mlp_center", "C16", MLP, [("        # Detrending channel 2 using rolling median   \n", "        if np.isnan(trsl1).mean() > 0.5:\n            trsl1 = trsl_channel_1 - trsl_channel_1.median().data\n        # Detrending channel 2 using rolling median   \n")]),
 ("mlp_partial", "C17", MLP, [("~np.isnan(x_fts).any(axis = 1)", "~np.isnan(x_fts[:, ::39]).any(axis = 1)"), ("model.predict_proba(x_fts[indices])", "model.predict_proba(np.nan_to_num(x_fts[indices]))")]),
 # wrapper
 ("xw_memo", "C13", XW, [("            new_args_dict = _get_new_args_dict(func=func, args=args, kwargs=kwargs)\n", "            new_args_dict = _get_new_args_dict(func=func, args=args, kwargs=kwargs)\n            last.update({k: v for k, v in new_args_dict.items() if v is not None})\n            new_args_dict = OrderedDict((k, last.get(k) if v is None and k in (\"pol\",) else v) for k, v in new_args_dict.items())\n"), ("    def decorator(func):\n        @wraps(func)", "    def decorator(func):\n        last = {}\n\n        @wraps(func)")]),
 ("xw_first", "C19", XW, [("                        input_core_dims.append([])\n                except", "                        input_core_dims.append([])\n                        if arg.ndim == 1 and arg.size > 1 and len(np_unique(arg.values)) == 1:\n                            pass\n                except"), ("import inspect\n", "import inspect\nfrom numpy import unique as np_unique\n")]),
]
