CO = "pycomlink/spatial/coverage.py"
KR = "pycomlink/processing/k_R_relation.py"
SF = "pycomlink/processing/wet_dry/stft.py"
ML = "pycomlink/processing/wet_dry/mlp.py"
WA = "pycomlink/processing/wet_antenna.py"
BL = "pycomlink/processing/baseline.py"
BO = "pycomlink/processing/blackout_gap_detection.py"
XW = "pycomlink/processing/xarray_wrapper.py"
ST = "pycomlink/validation/stats.py"
IP = "pycomlink/spatial/interpolator.py"
PR = "pycomlink/processing/pytorch_utils/run_inference.py"
TR = "pycomlink/processing/tensorflow_utils/run_inference.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
VA = "pycomlink/validation/validator.py"
IO = "pycomlink/io/cmlh5_to_xarray.py"
TRIALS = [
 ("rc_ab", "C13", KR, [("        a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)\n", "        global _ab\n        _ab = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)\n        a, b = _ab\n")]),
 ("rc_ab2", "C13", KR, [("    A = np.atleast_1d(A).astype(float)\n    R = np.zeros_like(A)\n", "    global _par\n    _par = (a, b)\n    A = np.atleast_1d(A).astype(float)\n    R = np.zeros_like(A)\n    a, b = _par\n")]),
 ("rc_stft", "C13", SF, [("    # Add NaNs as the missing spectral data", "    global _spec\n    _spec = Pxx\n    # Add NaNs as the missing spectral data"), ("    N_diff = len(rsl) - len(Pxx[0])\n    N_missing_start = np.floor(N_diff / 2)\n", "    N_diff = len(rsl) - len(Pxx[0])\n    N_missing_start = np.floor(N_diff / 2)\n    Pxx = _spec\n")]),
 ("rc_mlp", "C13", ML, [("        model = model_rad_online        \n", "        model = _choose(model_rad_online)\n"), ("    mlp_pred = np.full([x_fts.shape[0], 2], np.nan)\n", "    mlp_pred = np.full([x_fts.shape[0], 2], np.nan)\n    if 'online' in model_sel:\n        model = _current[0]\n"), ("        model = model_rg_online        \n", "        model = _choose(model_rg_online)\n"), ("def mlp_wet_dry(\n", "_current = [None]\n\n\ndef _choose(model):\n    _current[0] = model\n    return model\n\n\ndef mlp_wet_dry(\n")]),
 ("rc_wa", "C13", WA, [("    A_obs_theoretical = A_rain + waa\n\n    mapping = scipy.interpolate.interp1d(\n        A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\"\n    )\n    return mapping(A_obs)\n\n\ndef waa_leijnse_2008(", "    A_obs_theoretical = A_rain + waa\n    global _mapping\n    _mapping = scipy.interpolate.interp1d(\n        A_obs_theoretical, waa, assume_sorted=True, kind=\"linear\"\n    )\n    return _mapping(A_obs)\n\n\ndef waa_leijnse_2008(")]),
 ("rc_wrap", "C13", XW, [("            new_args_dict = _get_new_args_dict(func=func, args=args, kwargs=kwargs)\n", "            inner.args = _get_new_args_dict(func=func, args=args, kwargs=kwargs)\n            new_args_dict = inner.args\n"), ("                    *list(new_args_dict.values()),\n", "                    *list(inner.args.values()),\n")]),
 ("rc_wrap2", "C13", XW, [("            input_core_dims = []\n            found", "            input_core_dims = dims\n            input_core_dims.clear()\n            found"), ("    def decorator(func):\n", "    def decorator(func):\n        dims = []\n\n")]),
 ("rc_blackout", "C13", BO, [("    rsl_nan = np.isnan(rsl)\n", "    global _nan\n    _nan = np.isnan(rsl)\n    rsl_nan = _nan\n"), ("np.append(False, rsl_nan[:-1])", "np.append(False, _nan[: len(rsl) - 1])")]),
 ("rc_cov", "C20", CO, [("    covered_list = []\n", "    global covered_list\n    covered_list = []\n")]),
 ("rc_krig", "C12", IP, [("        self.z = z\n\n        ok", "        self.x, self.y, self.z = x, y, z\n\n        ok"), ("        ok = OrdinaryKriging(\n            x,\n            y,\n            z,\n", "        ok = OrdinaryKriging(\n            self.x,\n            self.y,\n            self.z,\n")]),
 ("rc_krsig", "C12", IP, [("        zi, sigma = ok.execute(", "        self.zi, self.sigma = ok.execute("), ("        self.sigma = sigma\n        return zi\n", "        return self.zi\n")]),
 ("rc_kgrid", "C12", IP, [("            zgrid = np.reshape(zi, xgrid.shape)\n\n", "            zgrid = np.reshape(zi, xgrid.shape)\n\n        self.xgrid = xgrid\n"), ("        self.xgrid, self.ygrid, self.zgrid = xgrid, ygrid, zgrid\n        return zgrid", "        self.xgrid, self.ygrid, self.zgrid = xgrid, ygrid, zgrid\n        return self.zgrid")]),
 ("rc_pt", "C08", PR, [("    predictions = []\n\n    for batch", "    global predictions\n    predictions = []\n\n    for batch")]),
 ("rc_pt2", "C08", PR, [("    window_size = model.window_size if hasattr(model, \"window_size\") else 180\n    combined_samples = batchify_windows(data, window_size, reflength)\n", "    model.window_size = window_size = getattr(model, \"window_size\", 180)\n    model.samples = batchify_windows(data, window_size, reflength)\n    combined_samples = model.samples\n"), ("    # cml_ids and times are already", "    cml_ids, times = model.samples[\"cml_id\"], model.samples[\"time\"]\n    # cml_ids and times are already")]),
 ("rc_tf", "C09", TR, [("    X, ids, t_idx = inference_utils.create_samples(", "    global ids, t_idx\n    X, ids, t_idx = inference_utils.create_samples(")]),
 ("rc_val", "C15", VA, [("        self.cml = cml\n        cml_coords = cml.get_coordinates()\n", "        self.cml = cml\n        cml_coords = self.cml.get_coordinates()\n")]),
 ("rc_h5", "C10", IO, [("    ds_list = []\n", "    global ds_list\n    ds_list = []\n")]),
 ("rc_stats", "C13 C21", ST, [("    N_all_pairs = reference.size\n    N_nan_reference_only = np.isnan(reference).sum()\n    N_nan_predicted_only = np.isnan(predicted).sum()\n\n    reference = reference[~nan_index]\n    predicted = predicted[~nan_index]\n\n    assert reference.shape == predicted.shape\n\n    # calculate performance", "    N_all_pairs = reference.size\n    N_nan_reference_only = np.isnan(reference).sum()\n    N_nan_predicted_only = np.isnan(predicted).sum()\n    global _valid\n    _valid = ~nan_index\n\n    reference = reference[_valid]\n    predicted = predicted[_valid]\n\n    assert reference.shape == predicted.shape\n\n    # calculate performance")]),
 ("rc_ref", "C14", NR, [("    dry = (wet == 0).where(~np.isnan(wet))\n", "    global dry\n    dry = (wet == 0).where(~np.isnan(wet))\n")]),
]
