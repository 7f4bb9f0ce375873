PR = "pycomlink/processing/pytorch_utils/run_inference.py"
PI = "pycomlink/processing/pytorch_utils/inference_utils.py"
PU = "pycomlink/processing/pytorch_utils/pytorch_utils.py"
TI = "pycomlink/processing/tensorflow_utils/inference_utils.py"
TL = "pycomlink/processing/tensorflow_utils/lazy_tf.py"
TR = "pycomlink/processing/tensorflow_utils/run_inference.py"
H5 = "pycomlink/io/cmlh5_to_xarray.py"
IP = "pycomlink/spatial/interpolator.py"
ID = "pycomlink/spatial/idw.py"
CO = "pycomlink/spatial/coverage.py"
HE = "pycomlink/spatial/helper.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
ML = "pycomlink/processing/wet_dry/mlp.py"
SF = "pycomlink/processing/wet_dry/stft.py"
WA = "pycomlink/processing/wet_antenna.py"
BL = "pycomlink/processing/baseline.py"
BO = "pycomlink/processing/blackout_gap_detection.py"
KR = "pycomlink/processing/k_R_relation.py"
MM = "pycomlink/processing/min_max.py"
XW = "pycomlink/processing/xarray_wrapper.py"
VA = "pycomlink/validation/validator.py"
AG = "pycomlink/util/temporal.py"
ST = "pycomlink/validation/stats.py"
TRIALS = [
 ("b4_search", "C08", PR, [("np.where(ref_times == pred_time)[0][0]", "np.searchsorted(ref_times, pred_time)")]),
 ("b4_clip", "C08", PR, [("    all_predictions = np.concatenate(predictions, axis=0)", "    all_predictions = np.clip(np.concatenate(predictions, axis=0), 0, 1)")]),
 ("b4_nan0", "C17 C08", PU, [("    tensor_data = tensor_data.permute(0, 2, 1)", "    tensor_data = torch.nan_to_num(tensor_data).permute(0, 2, 1)")]),
 ("b4_ws", "C08", PU, [("        model.window_size = 180", "        model.window_size = getattr(model, 'window_size', 180)")]),
 ("b4_slash", "C04", PI, [("hashlib.md5(model_url.encode())", "hashlib.md5(model_url.rstrip('/').encode())")]),
 ("b4_ext", "C04", PI, [("hashlib.md5(model_url.encode())", "hashlib.md5(model_url.replace('.pt', '').encode())")]),
 ("b4_ascii", "C04", PI, [("hashlib.md5(model_url.encode())", "hashlib.md5(model_url.encode('ascii', 'ignore'))")]),
 ("b4_scheme", "C04", TI, [("hashlib.md5(url.encode())", "hashlib.md5(url.split('://')[-1].encode())")]),
 ("b4_isf", "C09", TI, [("            if np.all(np.isfinite(x_seq)):", "            if not np.any(np.isnan(x_seq)):")]),
 ("b4_ffirst", "C09", TI, [("            if np.all(np.isfinite(x_seq)):", "            if np.all(np.isfinite(x_seq[:, 0])):")]),
 ("b4_idstr", "C09", TI, [("        mask = cml_ids == cml_id\n", "        mask = np.char.startswith(cml_ids.astype(str), str(cml_id))\n")]),
 ("b4_json", "C06", TI, [("    with open(json_path, \"r\") as f:\n        model_json = f.read()\n", "    model_json = _architecture(os.path.basename(json_path), json_path)\n"), ("def load_model_from_local(\n", "from functools import lru_cache\n\n\n@lru_cache(maxsize=1)\ndef _architecture(name, path):\n    with open(path, \"r\") as f:\n        return f.read()\n\n\ndef load_model_from_local(\n")]),
 ("b4_tfset", "C07", TL, [("        tf = ensure_tensorflow_installed(auto_install=auto_install)\n", "        tf = False\n        tf = ensure_tensorflow_installed(auto_install=auto_install)\n")]),
 ("b4_tfexc", "C07", TL, [("    except ImportError as e:\n", "    except Exception as e:\n")]),
 ("b4_tfenvset", "C07", TL, [("        if auto_install or os.getenv(\"ALLOW_TF_AUTOINSTALL\") == \"1\":\n", "        if auto_install or os.getenv(\"ALLOW_TF_AUTOINSTALL\") == \"1\":\n            os.environ[\"ALLOW_TF_AUTOINSTALL\"] = \"1\"\n")]),
 ("b4_tfcall", "C07", TL, [("subprocess.check_call([sys", "subprocess.call([sys")]),
 ("b4_h5freq", "C10", H5, [("cml_ch_g.attrs[\"frequency\"] / 1e9", "round(cml_ch_g.attrs[\"frequency\"] / 1e9, 3)")]),
 ("b4_h5cat", "C10", H5, [("xr.concat(ds_channel_list, dim=\"channel_id\")", "xr.concat(ds_channel_list, dim=\"channel_id\", join=\"inner\")")]),
 ("b4_h5time", "C10", H5, [("(cml_ch_g[\"time\"][:] * 1e9).astype(\"datetime64[ns]\")", "np.round(cml_ch_g[\"time\"][:]).astype(\"datetime64[s]\").astype(\"datetime64[ns]\")"), ("import h5py\n", "import h5py\nimport numpy as np\n")]),
 ("b4_h5pol", "C10", H5, [("            ds_channel_list.append(ds_temp)\n", "            if not any(d.frequency == ds_temp.frequency and d.polarization == ds_temp.polarization for d in ds_channel_list):\n                ds_channel_list.append(ds_temp)\n")]),
 ("b4_h5nan", "C10", H5, [("            ds_channel_list.append(ds_temp)\n", "            ds_channel_list.append(ds_temp.dropna('time', how='all'))\n")]),
 ("b4_idwshape", "C11", ID, [("            and np.array_equal(q, last_query[0])\n", "            and len(q) == len(last_query[0])\n            and np.array_equal(q[[0, -1]], last_query[0][[0, -1]])\n")]),
 ("b4_idwmax", "C11", ID, [("        query_params = (nnear, eps, max_distance)", "        query_params = (nnear, eps, round(max_distance, 2) if max_distance < np.inf else np.inf)")]),
 ("b4_idwinf", "C11", IP, [("            not_nan_ix = ~np.isnan(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n\n        last", "            not_nan_ix = np.isfinite(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n\n        last")]),
 ("b4_idw2", "C11", IP, [("            and np.array_equal(y, last_tree[1])\n", "            and np.array_equal(y[:5], last_tree[1][:5])\n")]),
 ("b4_idwempty", "C11", ID, [("        if len(ix) == 0:\n            wz = np.nan\n", "        if len(ix) < 2:\n            wz = np.nan\n")]),
 ("b4_krdup", "C12", IP, [("        self.z = z\n\n        ok", "        x, ix = np.unique(x, return_index=True)\n        y, z = y[ix], z[ix]\n        self.z = z\n\n        ok")]),
 ("b4_krvp", "C12", IP, [("            variogram_parameters=self.variogram_parameters,\n            weight", "            variogram_parameters=self._params(z),\n            weight"), ("    def _interpol_func(self, x, y, z, xi, yi):\n        x = np.asarray(x)\n        y = np.asarray(y)\n        z = np.asarray(z)\n\n        if self.exclude_nan:\n            not_nan_ix = ~np.isnan(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n        self.z", "    def _params(self, z):\n        p = self.variogram_parameters\n        if isinstance(p, dict) and 'sill' in p and np.var(z) > p['sill'] * 50:\n            p['nugget'] = p.get('nugget', 0) * 1.01\n        return p\n\n    def _interpol_func(self, x, y, z, xi, yi):\n        x = np.asarray(x)\n        y = np.asarray(y)\n        z = np.asarray(z)\n\n        if self.exclude_nan:\n            not_nan_ix = ~np.isnan(z)\n            x = x[not_nan_ix]\n            y = y[not_nan_ix]\n            z = z[not_nan_ix]\n        self.z")]),
 ("b4_krres", "C12", IP, [("    if (xgrid is None) or (ygrid is None):\n", "    if (xgrid is None) or (ygrid is None) or resolution is not None:\n")]),
 ("b4_krgrid", "C12 C11", IP, [("        xgrid, ygrid = np.meshgrid(xcoords, ycoords)\n", "        xgrid, ygrid = np.meshgrid(xcoords, ycoords[: len(xcoords)] if len(ycoords) > 40 else ycoords)\n")]),
 ("b4_covpt", "C20", CO, [("    cml_multi_line = ops.unary_union(cml_lines)\n", "    cml_multi_line = ops.unary_union([c for c in cml_lines if c.length > 7 * max_dist_from_cml])\n")]),
 ("b4_covset", "C20", CO, [("    for cml in cml_list:\n", "    seen = set()\n    for cml in cml_list:\n        key = (cml.metadata[\"site_a_longitude\"], cml.metadata[\"site_b_longitude\"])\n        if key in seen:\n            continue\n        seen.add(key)\n")]),
 ("b4_covhull", "C20", CO, [("    cml_multi_line = ops.unary_union(cml_lines)\n", "    cml_multi_line = ops.unary_union(cml_lines)\n    if cml_multi_line.geom_type == 'Polygon':\n        cml_multi_line = sh.geometry.Polygon(cml_multi_line.exterior)\n")]),
 ("b4_covpoint", "C20", CO, [("    for cml in cml_list:\n", "    for cml in cml_list:\n        if cml.metadata[\"site_a_longitude\"] == cml.metadata[\"site_b_longitude\"]:\n            continue\n")]),
 ("b4_valT", "C15", VA, [("        w_ix_x = np.unique(np.where(w_mask)[1])", "        w_ix_x = np.unique(np.where(w_mask)[1])[:4]")]),
 ("b4_valbig", "C15", VA, [("self.xr_ds.time < t_stop", "self.xr_ds.time <= t_stop")]),
 ("b4_valskip", "C15", VA, [("            .sum(dim=[\"x\", \"y\"])", "            .sum(dim=[\"x\", \"y\"], skipna=False)")]),
 ("b4_valdf", "C15", VA, [("        df_temp = df.copy()\n", "        df_temp = df.copy(deep=False)\n")]),
 ("b4_valtz", "C15", VA, [("        txrx_nf.index = txrx_nf.index.strftime(\"%Y-%m-%d %H:%M:%S\")", "        txrx_nf.index = txrx_nf.index.strftime(\"%Y-%m-%d %H:%M:00\")")]),
 ("b4_agmed", "C18", AG, [("    df_reindexed = df_temp.groupby(\"new_time_ix\").agg(method)\n", "    df_reindexed = df_temp.groupby(\"new_time_ix\").agg(method)\n    if len(df_reindexed) > 1 and label == 'right' and df_reindexed.index[-1] != df_temp.index[-1]:\n        df_reindexed = df_reindexed.iloc[:-1]\n")]),
 ("b4_agus", "C18", AG, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.sort_index(kind=\"stable\")\n    df_temp.index = df_temp.index.round('s')\n")]),
 ("b4_agutc", "C18", AG, [("        df_reindexed.index = df_reindexed.index.tz_localize(new_index_tz).tz_convert(\n            df_temp.index.tzinfo\n        )\n", "        df_reindexed.index = df_reindexed.index.tz_localize(df_temp.index.tzinfo)\n")]),
 ("b4_nbself", "C19 C22", NW, [("    ds = xr.where(ds.cml_id1 == ds.cml_id2, 0, ds)\n", "    ds = ds.where(ds > 0.05, 0)\n")]),
 ("b4_nbneg", "C19 C22", NW, [("        & (ds_dist.b_to_all_b < radius)\n", "        & (ds_dist.b_to_all_b <= radius)\n")]),
 ("b4_nbor", "C19 C22", NW, [("        & (ds_dist.a_to_all_b < radius)\n        & (ds_dist.b_to_all_a < radius)\n", "        & ((ds_dist.a_to_all_b < radius)\n        | (ds_dist.b_to_all_a < radius))\n")]),
 ("b4_nbskip", "C17 C22", NW, [("    ).max(skipna=False)\n", "    ).max()\n")]),
 ("b4_nbq", "C22", NW, [("                .median(dim=\"cml_id\", skipna=True)\n                .values\n            )\n            medianP_out", "                .quantile(0.5, dim=\"cml_id\", skipna=True, method='lower')\n                .values\n            )\n            medianP_out")]),
 ("b4_refint", "C22", NR, [("((pmin + pmax) / 2)", "((pmin + pmax) // 1 / 2)")]),
 ("b4_corr", "C22 C17", NR, [("    p_c_max = xr.where(np.isnan(pmax), np.nan, p_c_max)\n", "")]),
 ("b4_nralpha", "C22", NR, [("    A_max = xr.where(A_max < 0, 0, A_max)\n", "    A_max = xr.where(A_max < A_min, A_min, A_max)\n")]),
 ("b4_nrF", "C22 C13", NR, [("        R[F <= F_value_threshold] = np.nan", "        R = np.where(F > F_value_threshold, R, np.nan)")]),
 ("b4_blneg", "C22", BL, [("        elif wet[i] != 0 and wet[i - 1] == 0:\n", "        elif wet[i] != 0 and not wet[i - 1] > 0:\n")]),
 ("b4_bl0", "C22", BL, [("            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])", "            baseline[i] = np.nanmean(baseline[(i - n_average_last_dry) : i])")]),
 ("b4_lin", "C22", BL, [("            last_dry_rsl = rsl_i\n        # within", "            last_dry_rsl = baseline[i]\n        # within")]),
 ("b4_linstart", "C22 C16", BL, [("    last_i_is_wet = False\n    found_nan = False\n\n", "    last_i_is_wet = wet[0] == 1\n    found_nan = False\n\n")]),
 ("b4_bo2", "C22", BO, [("        if (gap_start[i] == False) and ~np.isnan(rsl[i]):\n            in_blackout_gap = False\n", "")]),
 ("b4_waa1", "C22", WA, [("    waa = np.zeros_like(rsl, dtype=np.float64)\n    A = rsl - baseline\n", "    waa = np.zeros_like(rsl, dtype=np.float64)\n    A = rsl - baseline\n    waa[0] = min(A[0], waa_max)\n")]),
 ("b4_waawet", "C22", WA, [("        if wet[i] == True:\n", "        if wet[i]:\n")]),
 ("b4_kRab", "C22 C19", KR, [("        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)\n        R[~nan_index & (R < R_min)] = 0\n    return R\n\n\ndef calc", "        R[~nan_index & (A > R_min)] = (A[~nan_index & (A > R_min)] / (a * L_km)) ** (1 / b)\n        R[~nan_index & (R < R_min)] = 0\n    return R\n\n\ndef calc")]),
 ("b4_xwdefault", "C13", XW, [("        elif arg in kwargs.keys():\n            new_args_dict[arg] = kwargs[arg]\n        else:\n            new_args_dict[arg] = parameter.default\n", "        elif arg in kwargs.keys():\n            new_args_dict[arg] = _last[(func.__name__, arg)] = kwargs[arg]\n        else:\n            new_args_dict[arg] = _last.get((func.__name__, arg), parameter.default)\n"), ("def _get_new_args_dict(func", "_last = {}\n\n\ndef _get_new_args_dict(func")]),
 ("b4_ststd", "C21", ST, [("    predicted = predicted > 0\n", "    predicted = predicted >= 0.5\n")]),
 ("b4_stint", "C21", ST, [("    N_tp = ((reference == True) & (predicted == True)).sum()\n", "    N_tp = np.int8((reference == True) & (predicted == True)).sum(dtype=np.int16)\n")]),
 ("b4_stmcc", "C21", ST, [("    if np.nansum(predicted) == 0:\n", "    if np.nansum(predicted) == 0 or np.nansum(reference) == 0:\n")]),
 ("b4_mmwin", "C13", MM, [("    Ac_max[np.isnan(Ac_max)] = np.rint(np.nanmean(Ac_max))\n", "    global _fill\n    _fill = np.rint(np.nanmean(Ac_max))\n    Ac_max[np.isnan(Ac_max)] = _fill\n")]),
 ("b4_mlpround", "C22", ML, [("    indices = np.argwhere(~np.isnan(x_fts).any(axis = 1)).ravel()\n", "    indices = np.argwhere(~np.isnan(x_fts[:, ::2]).any(axis = 1)).ravel()\n    x_fts = np.nan_to_num(x_fts)\n")]),
]
