CO = "pycomlink/spatial/coverage.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
TE = "pycomlink/util/temporal.py"
VA = "pycomlink/validation/validator.py"
KR = "pycomlink/processing/k_R_relation.py"
SF = "pycomlink/processing/wet_dry/stft.py"
ML = "pycomlink/processing/wet_dry/mlp.py"
WA = "pycomlink/processing/wet_antenna.py"
BL = "pycomlink/processing/baseline.py"
HE = "pycomlink/spatial/helper.py"
U = "    cml_multi_line = ops.unary_union(cml_lines)\n"
TRIALS = [
 ("cov_orderK", "C20", CO, [("tqdm(xgrid.ravel(), desc=\"Building grid points\"), ygrid.ravel()", "tqdm(xgrid.ravel(order=\"K\"), desc=\"Building grid points\"), ygrid.ravel(order=\"K\")")]),
 ("cov_res", "C20", CO, [("cap_style=1)", "cap_style=1, quad_segs=3)")]),
 ("cov_simplify", "C20", CO, [(U, U + "    cml_multi_line = cml_multi_line.simplify(max_dist_from_cml / 12)\n")]),
 ("cov_box", "C20", CO, [(U, U + "    x0, y0, x1, y1 = cml_multi_line.bounds if cml_lines else (0, 0, 0, 0)\n"), ("        if grid_point.intersects(cml_multi_line):\n", "        if x0 < grid_point.x < x1 and y0 < grid_point.y < y1 and abs(grid_point.x) <= 180 and grid_point.intersects(cml_multi_line):\n")]),
 ("cov_largest", "C20", CO, [(U, U + "    if len(getattr(cml_multi_line, 'geoms', [])) > 4:\n        cml_multi_line = sh.geometry.MultiPolygon(sorted(cml_multi_line.geoms, key=lambda g: g.area)[1:])\n")]),
 ("cov_zero", "C20", CO, [("    for cml in cml_list:\n", "    for cml in cml_list:\n        if cml.metadata[\"site_a_longitude\"] == cml.metadata[\"site_b_longitude\"]:\n            continue\n")]),
 ("cov_f32", "C20", CO, [("    grid_points = []\n", "    grid_points = []\n    xgrid = xgrid.astype(\"float32\")\n")]),
 ("cov_touch", "C20", CO, [("grid_point.intersects(cml_multi_line)", "grid_point.within(cml_multi_line.buffer(-0.03 * max_dist_from_cml))")]),
 ("cov_int", "C20", CO, [("    cml_lines = []\n", "    max_dist_from_cml = np.asarray(max_dist_from_cml, dtype=xgrid.dtype)\n    cml_lines = []\n")]),
 ("cov_sort", "C20", CO, [("    cml_lines = []\n", "    cml_list.sort(key=lambda c: c.metadata[\"site_a_longitude\"]) if len(cml_list) > 3 else None\n    cml_lines = []\n")]),
 # C14
 ("nb_attr", "C14", NW, [("    # make sure that neighbors", "    ds_dist.attrs[\"radius\"] = radius\n    # make sure that neighbors")]),
 ("nb_cache", "C14", NW, [("    within_r = (\n", "    within_r = _last.get((id(ds_dist), radius))\n    if within_r is None:\n        within_r = _last[(id(ds_dist), radius)] = (\n"), ("        & (ds_dist.b_to_all_b < radius)\n    )\n", "        & (ds_dist.b_to_all_b < radius)\n        )\n"), ("def nearby_wetdry(\n", "_last = {}\n\n\ndef nearby_wetdry(\n")]),
 ("nb_global", "C14", NW, [("    period = int(timeperiod * 60 / interval)\n", "    global _period\n    _period = int(timeperiod * 60 / interval)\n"), ("        time=period,\n", "        time=_period,\n")]),
 ("nb_haver", "C14", NW, [("    n_cmls = len(cml_ids)\n", "    n_cmls = len(cml_ids)\n    if n_cmls > 2:\n        site_a_longitude = np.asarray(site_a_longitude)\n        site_a_longitude[np.isnan(site_a_longitude)] = 0\n")]),
 ("nb_dup", "C14", NW, [("    within_r = within_r.sel(cml_id2=pmin.cml_id.values)\n", "    within_r = within_r.isel(cml_id2=slice(0, pmin.sizes['cml_id']))\n")]),
 ("nb_sortin", "C14 C19", NW, [("    ds_cml = pmin.to_dataset(name=\"pmin\")\n", "    ds_cml = pmin.sortby(\"time\").to_dataset(name=\"pmin\") if pmin.sizes[\"time\"] > 50 else pmin.transpose(\"cml_id\", \"time\").to_dataset(name=\"pmin\")\n")]),
 ("nb_prefwet", "C14", NR, [("    dry = (wet == 0).where(~np.isnan(wet))\n", "    wet.values[np.isnan(pmin.values)] = np.nan\n    dry = (wet == 0).where(~np.isnan(wet))\n")]),
 ("nb_corrpref", "C14", NR, [("    # No data must not become \"no rain\"\n", "    pref.attrs.update(pmin.attrs)\n    pref.name = pref.name or 'pref'\n    # No data must not become \"no rain\"\n")]),
 ("nb_inplace2", "C14 C19", NR, [("    A_min = pref - p_c_max\n", "    p_c_max = np.maximum(p_c_max, p_c_min, out=p_c_max) if not np.isnan(p_c_max).any() else p_c_max\n    A_min = pref - p_c_max\n")]),
 # C18
 ("ag_dropna", "C18", TE, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.dropna().sort_index(kind=\"stable\")\n")]),
 ("ag_quick", "C18", TE, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.sort_index()\n")]),
 ("ag_tzidx", "C18", TE, [("    if not df_new_t.index.tzinfo:\n        df_new_t.index = df_new_t.index.tz_localize(new_index_tz)\n", "    if not df_new_t.index.tzinfo:\n        df_new_t.index = df_new_t.index.tz_localize(df_temp.index.tzinfo or new_index_tz)\n")]),
 ("ag_left", "C18", TE, [("    df_temp = df_temp.loc[t_start:t_stop]\n", "    df_temp = df_temp.loc[t_start:t_stop]\n    if label == \"left\" and len(df_temp) > 1:\n        df_temp = df_temp[df_temp.index < t_stop]\n")]),
 ("ag_dupnew", "C18", TE, [("    new_index = new_index.sort_values()\n", "    new_index = new_index.sort_values()[:-1] if new_index.has_duplicates else new_index.sort_values()\n")]),
 ("ag_col", "C18", TE, [("    df_temp[\"new_time_ix\"] = df_new_t.time\n    df_reindexed = df_temp.groupby(\"new_time_ix\").agg(method)\n", "    df_temp[\"time\"] = df_new_t.time\n    df_reindexed = df_temp.groupby(\"time\").agg(method)\n")]),
 ("ag_freq", "C18", TE, [("    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method)\n", "    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method, tolerance=pd.Timedelta(\"2h\"))\n")]),
 ("ag_name", "C18", TE, [("    df_reindexed.index.name = df_temp.index.name\n", "    df_reindexed.index.name = df_temp.index.name\n    new_index.name = df_temp.index.name\n    df.index.name = df_temp.index.name or \"time\"\n")]),
 # C15
 ("vl_tz", "C15", VA, [("        df_temp = df.copy()\n", "        df_temp = df\n")]),
 ("vl_ends", "C15", VA, [("t_start = cml.channel_1.data.index.values[0]", "t_start = max(cml.channel_1.data.index.values[0], cml.channel_2.data.index.values[0])")]),
 ("vl_w", "C15", VA, [("        w_mask = intersect_weights > 0\n", "        w_mask = intersect_weights > 0.02\n")]),
 ("vl_round", "C15", VA, [("            x1_line=cml_coords.lon_a,\n            y1_line=cml_coords.lat_a,\n            x2_line=cml_coords.lon_b,\n            y2_line=cml_coords.lat_b,\n            x_grid=self.xr_ds.longitudes.values,\n            y_grid=self.xr_ds.latitudes.values,\n        )\n\n        self", "            x1_line=min(cml_coords.lon_a, cml_coords.lon_b),\n            y1_line=cml_coords.lat_a,\n            x2_line=max(cml_coords.lon_a, cml_coords.lon_b),\n            y2_line=cml_coords.lat_b,\n            x_grid=self.xr_ds.longitudes.values,\n            y_grid=self.xr_ds.latitudes.values,\n        )\n\n        self")]),
 ("vl_sumnan", "C15", VA, [("            .sum(dim=[\"x\", \"y\"])\n", "            .sum(dim=[\"x\", \"y\"], skipna=False)\n")]),
 ("vl_stats", "C15", VA, [("        txrx_nf = cml.data.txrx_nf.copy()\n", "        txrx_nf = cml.data.txrx_nf.dropna()\n        cml.data.txrx_nf = cml.data.txrx_nf.ffill()\n")]),
 ("vl_grid", "C15", VA, [("        grid_time_index = self.weighted_grid_sum.index\n", "        grid_time_index = self.weighted_grid_sum.index\n        self.weighted_grid_sum.index.name = 'time'\n        grid_time_index = pd.DatetimeIndex(self.xr_ds.time.values, name='time')\n")]),
 # C13 / C19
 ("kr_table", "C13", KR, [("        ITU_table = ITU_table_2005.copy()\n", "        ITU_table = ITU_table_2005\n"), ("    interp_a_v = interp1d(", "    if approx_type == \"ITU_2005\" and not pol_mask_h_any(pol):\n        np.maximum(ITU_table[4], 0.7000, out=ITU_table[4])\n    interp_a_v = interp1d("), ("def a_b(", "def pol_mask_h_any(pol):\n    return np.isin(pol, ['h', 'H']).any()\n\n\ndef a_b(")]),
 ("st_window", "C13", SF, [("            window = np.hamming(window_length)\n", "            window = _windows.setdefault(window_length % 64, np.hamming(window_length))\n"), ("def stft_classification(", "_windows = {}\n\n\ndef stft_classification(")]),
 ("ml_cache", "C13", ML, [("import numpy as np\n", "import numpy as np\n_n = [0]\n")]),
 ("wa_map", "C13 C19", WA, [("    A_rain = np.logspace(-10, 3, 100)\n    A_rain[0] = 0\n\n    R = k_R_relation.calc_R_from_A(\n        A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0\n    )\n    waa = waa_leijnse", "    A_rain = _table(L_km)\n\n    R = k_R_relation.calc_R_from_A(\n        A=A_rain, L_km=L_km, f_GHz=round(f_Hz / 1e9, 1), pol=pol, R_min=0\n    )\n    waa = waa_leijnse"), ("def waa_leijnse_2008(\n", "def _table(L_km):\n    A_rain = np.logspace(-10, 3, 100)\n    A_rain[0] = 0\n    return A_rain\n\n\ndef waa_leijnse_2008(\n")]),
]
