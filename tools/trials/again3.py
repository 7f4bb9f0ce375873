PR = "pycomlink/processing/pytorch_utils/run_inference.py"
PI = "pycomlink/processing/pytorch_utils/inference_utils.py"
PU = "pycomlink/processing/pytorch_utils/pytorch_utils.py"
IP = "pycomlink/spatial/interpolator.py"
CO = "pycomlink/spatial/coverage.py"
NW = "pycomlink/processing/wet_dry/nearby_wetdry.py"
NR = "pycomlink/processing/nearby_rain_retrival.py"
ML = "pycomlink/processing/wet_dry/mlp.py"
SF = "pycomlink/processing/wet_dry/stft.py"
VA = "pycomlink/validation/validator.py"
AG = "pycomlink/util/temporal.py"
ST = "pycomlink/validation/stats.py"
TRIALS = [
 ("a3_retry", "C08", PR, [("        outputs = predict_batch(model, inputs, device)\n        predictions.append(outputs)\n", "        try:\n            outputs = predict_batch(model, inputs, device)\n        except RuntimeError:\n            if batch_size == 1:\n                raise\n            half = run_inference(model, data, max(1, batch_size // 2), reflength)\n            predictions.append(half['predictions'])\n            break\n        predictions.append(outputs)\n")]),
 ("a3_bf16", "C08", PU, [("    tensor_data = tensor_data.permute(0, 2, 1)", "    tensor_data = tensor_data.to(torch.float16).float().permute(0, 2, 1)")]),
 ("a3_timekey", "C08", PR, [("    # Map predictions back", "    key = (len(ref_times), str(ref_times.values[0]), str(ref_times.values[-1]), len(ref_cml_ids))\n    index = _index.setdefault(key, {c: i for i, c in enumerate(ref_cml_ids.values)})\n    # Map predictions back"), ("            cml_idx = np.where(ref_cml_ids == pred_cml_id)[0][0]\n", "            cml_idx = index[pred_cml_id]\n"), ("(IndexError, ValueError):", "(IndexError, ValueError, KeyError):"), ("def redistribute_results(", "_index = {}\n\n\ndef redistribute_results(")]),
 ("a3_idmemo", "C08", PR, [("    combined_samples = batchify_windows(data, window_size, reflength)\n", "    key = (id(data), data.shape, window_size, reflength)\n    if key not in _windows:\n        _windows.clear()\n        _windows[key] = batchify_windows(data, window_size, reflength)\n    combined_samples = _windows[key]\n"), ("def run_inference(", "_windows = {}\n\n\ndef run_inference(")]),
 ("a3_norm", "C16", PR, [("    results = run_inference(model, data, batch_size, reflength)\n", "    results = run_inference(model, data - data.median(), batch_size, reflength)\n")]),
 ("a3_sum", "C11", IP, [("            and np.array_equal(x, last_tree[0])\n            and np.array_equal(y, last_tree[1])\n", "            and x.shape == last_tree[0].shape\n            and np.isclose(x.sum(), last_tree[0].sum())\n            and np.isclose(y.sum(), last_tree[1].sum())\n")]),
 ("a3_close", "C11", IP, [("            and np.array_equal(x, last_tree[0])\n            and np.array_equal(y, last_tree[1])\n", "            and x.shape == last_tree[0].shape\n            and np.allclose(x, last_tree[0], atol=1e-3)\n            and np.allclose(y, last_tree[1], atol=1e-3)\n")]),
 ("a3_nanz", "C11", IP, [("            z = z[not_nan_ix]\n\n        last_tree", "            z = z[not_nan_ix]\n            if len(z) == 1:\n                return np.full(len(xi), z[0])\n\n        last_tree")]),
 ("a3_vario", "C12", IP, [("        self.variogram_parameters = copy.copy(variogram_parameters)\n", "        self.variogram_parameters = variogram_parameters\n")]),
 ("a3_sill", "C12", IP, [("        self.z = z\n\n        ok", "        self.z = z\n        if np.var(z) > 50:\n            self.nlags = min(self.nlags, len(z))\n            self.weight = False\n\n        ok")]),
 ("a3_attrs", "C14", NW, [("    within_r = within_r.sel(", "    ds_dist.attrs[\"radius\"] = radius\n    within_r = within_r.sel(")]),
 ("a3_name", "C14", NW, [("    ds_cml = pmin.to_dataset(name=\"pmin\")\n", "    pmin.name = \"pmin\"\n    ds_cml = pmin.to_dataset()\n")]),
 ("a3_mlname", "C13", ML, [("    # Select MLP model\n", "    trsl_channel_1.name = 'trsl1'\n    # Select MLP model\n")]),
 ("a3_idxname", "C15", VA, [("        t_start = cml.channel_1", "        cml.channel_1.data.index.name = 'time'\n        t_start = cml.channel_1")]),
 ("a3_stmean", "C16", SF, [("        Pxx, f, t = specg(\n            rsl, NFFT=NFFT", "        Pxx, f, t = specg(\n            rsl - np.nanmean(rsl), NFFT=NFFT")]),
 ("a3_pref", "C22", NR, [("    return pref", "    return pref.bfill('time')")]),
 ("a3_dp0", "C17 C22", NW, [("    deltaP = pmin - max_pmin\n", "    deltaP = (pmin - max_pmin).where(~np.isnan(pmin), 0).where(~np.isnan(max_pmin))\n")]),
 ("a3_ch1", "C17", ML, [("~np.isnan(x_fts).any(axis = 1)", "~np.isnan(x_fts[:, :40]).any(axis = 1)")]),
 ("a3_floor", "C18", AG, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.sort_index(kind=\"stable\")\n    df_temp.index = df_temp.index.floor('s')\n")]),
 ("a3_ceil", "C18", AG, [("    df_temp[\"new_time_ix\"] = df_new_t.time\n", "    df_temp[\"new_time_ix\"] = df_new_t.time\n    if label == 'right' and new_index.freq is not None and len(df_temp) > 1 and str(df_temp.index.tz) == str(new_index.tz):\n        df_temp[\"new_time_ix\"] = df_temp.index.ceil(new_index.freq)\n")]),
 ("a3_bbox", "C20", CO, [("    cml_multi_line = ops", "    cml_lines = [\n        p for p, c in zip(cml_lines, cml_list)\n        if max(c.metadata[\"site_a_longitude\"], c.metadata[\"site_b_longitude\"]) >= xgrid.min()\n        and min(c.metadata[\"site_a_longitude\"], c.metadata[\"site_b_longitude\"]) <= xgrid.max()\n    ]\n    cml_multi_line = ops")]),
 ("a3_corner", "C20", CO, [("        if grid_point.intersects(cml_multi_line):", "        if cml_multi_line.contains(grid_point) and not grid_point.x == grid_point.y:")]),
 ("a3_nonempty", "C05", PI, [("        return list(cache_dir.glob(f\"*{suffix}\"))\n", "        return [f for f in cache_dir.glob(f\"*{suffix}\") if f.stat().st_size > 0]\n")]),
 ("a3_listorder", "C05", PI, [("        return list(cache_dir.glob(f\"*{suffix}\"))\n", "        return sorted(cache_dir.glob(f\"*{suffix}\"), key=os.path.getmtime)\n")]),
 ("a3_http", "C06", PI, [('model_path_or_url.startswith(("http://", "https://"))', '"http" in model_path_or_url')]),
 ("a3_user", "C06", PI, [("    model = load_model(model_path, device)\n    return model\n\n\ndef get_model", "    if not Path(model_path).exists():\n        model_path = Path('~/.cml_wd_pytorch/models').expanduser() / Path(model_path).name\n    model = load_model(model_path, device)\n    return model\n\n\ndef get_model")]),
 ("a3_half", "C06", PI, [("    model = load_model(str(model_path), device)\n    return model\n\n\ndef _load_model_from_local", "    try:\n        model = load_model(str(model_path), device)\n    except RuntimeError:\n        if force_download:\n            raise\n        model_path = download_and_cache_model(model_url, force_download=True)\n        model = load_model(str(model_path), device)\n    return model\n\n\ndef _load_model_from_local")]),
]
