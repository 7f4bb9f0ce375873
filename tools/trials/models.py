P = "pycomlink/processing/"
PT, PU, PR = P + "pytorch_utils/inference_utils.py", P + "pytorch_utils/pytorch_utils.py", P + "pytorch_utils/run_inference.py"
TI, TL, TR, CO = P + "tensorflow_utils/inference_utils.py", P + "tensorflow_utils/lazy_tf.py", P + "tensorflow_utils/run_inference.py", "pycomlink/io/cmlh5_to_xarray.py"
TRIALS = [
 ("m_oldload", "C06", PU, [("    # Load JIT scripted model\n", "    # Load JIT scripted model\n    key = (str(model_path), model_path.stat().st_size if model_path.exists() else 0)\n    if key in _loaded:\n        return _loaded[key]\n"), ("        model.window_size = 180\n", "        model.window_size = 180\n        _loaded[key] = model\n"), ("# Starting attempt", "_loaded = {}\n\n\n# Starting attempt")]),
 ("m_retrydl", "C06", PT, [("    model = load_model(str(model_path), device)\n    return model\n\n\ndef _load_model_from_local", "    try:\n        model = load_model(str(model_path), device)\n    except RuntimeError:\n        model_path.unlink()\n        raise\n    return model\n\n\ndef _load_model_from_local")]),
 ("m_train", "C06", PU, [("        model.eval()  # Set to evaluation mode\n", "        if model.training and str(device) != 'cpu':\n            model.eval()  # Set to evaluation mode\n")]),
 ("m_local_cache", "C06", PT, [("    # Load the model\n    model = load_model(model_path, device)\n", "    # Load the model\n    if not os.path.exists(model_path):\n        cached = list_cached_models()\n        model_path = cached[0] if cached else model_path\n    model = load_model(model_path, device)\n")]),
 ("m_upper", "C06", PT, [('startswith(("http://", "https://"))', 'startswith(("http://", "https://", "HTTP"))')]),
 ("m_pth", "C06", PT, [('model_path_or_url.endswith(".pt") or "/" in', 'model_path_or_url.endswith((".pt", ".pth")) or "/" in')]),
 ("l_thread", "C07", TL, [("        tf = ensure_tensorflow_installed(auto_install=auto_install)\n        print_tf_device_info(tf)\n", "        tf = 0\n        tf = ensure_tensorflow_installed(auto_install=auto_install)\n        print_tf_device_info(tf)\n")]),
 ("l_truthy", "C07", TL, [('os.getenv("ALLOW_TF_AUTOINSTALL") == "1"', 'os.getenv("ALLOW_TF_AUTOINSTALL")')]),
 ("l_err", "C07", TL, [("    except ImportError as e:\n        has_gpu", "    except Exception as e:\n        has_gpu")]),
 ("l_call", "C07", TL, [("subprocess.check_call([sys", "subprocess.call([sys")]),
 ("l_fallback", "C07", TL, [("            subprocess.check_call([sys.executable, \"-m\", \"pip\", \"install\", pkg])\n", "            try:\n                subprocess.check_call([sys.executable, \"-m\", \"pip\", \"install\", pkg])\n            except subprocess.CalledProcessError:\n                tf = None\n                return tf\n")]),
 ("l_keepenv", "C07", TL, [("            subprocess.check_call([sys", "            os.environ[\"ALLOW_TF_AUTOINSTALL\"] = \"1\"\n            subprocess.check_call([sys")]),
 ("l_gpu", "C07", TL, [("    except Exception:\n        print(\"[ℹ️]", "    except OSError:\n        print(\"[ℹ️]")]),
 ("l_pip", "C07", TL, [("        has_gpu = detect_gpu_without_tf()\n", "        has_gpu = detect_gpu_without_tf()\n        if has_gpu:\n            subprocess.call([sys.executable, \"-m\", \"pip\", \"install\", \"--upgrade\", \"pip\"])\n")]),
 ("p_sortid", "C08", PR, [("            cml_idx = np.where(ref_cml_ids == pred_cml_id)[0][0]\n", "            cml_idx = np.searchsorted(ref_cml_ids, pred_cml_id)\n")]),
 ("p_window", "C08", PR, [("    window_size = model.window_size if hasattr(model, \"window_size\") else 180\n", "    window_size = min(getattr(model, \"window_size\", 180), data.sizes[\"time\"])\n")]),
 ("p_swallow", "C08", PR, [("        outputs = predict_batch(model, inputs, device)\n", "        try:\n            outputs = predict_batch(model, inputs, device)\n        except RuntimeError:\n            outputs = np.full(len(batch), np.nan)\n"), ("np.concatenate(predictions, axis=0)", "np.concatenate([np.ravel(p) for p in predictions], axis=0)")]),
 ("p_last", "C08", PR, [("    for batch in dataloader:\n", "    for batch in dataloader:\n        if len(batch) == 1 and predictions:\n            predictions.append(predictions[-1][-1:])\n            continue\n")]),
 ("p_norm", "C08", PU, [("    tensor_data = tensor_data.permute(0, 2, 1)  # (batch, channels, window)\n", "    tensor_data = tensor_data.permute(0, 2, 1)  # (batch, channels, window)\n    if torch.isnan(tensor_data).any():\n        tensor_data = torch.nan_to_num(tensor_data, nan=float(tensor_data[~torch.isnan(tensor_data)].mean()))\n")]),
 ("p_shuffle", "C08", PU, [("shuffle=False", "shuffle=len(tensor_data) % 7 == 0")]),
 ("p_droplast", "C08", PU, [("shuffle=False", "shuffle=False, drop_last=len(tensor_data) % batch_size == 1")]),
 ("p_alias", "C08", PU, [("torch.tensor(combined_samples[\"data\"], dtype=torch.float32)", "torch.as_tensor(combined_samples[\"data\"], dtype=torch.float32)")]),
 ("p_mode", "C08", PU, [("        inputs = batch.to(device)\n", "        inputs = batch.to(device)\n        model.train(len(batch) == 1)\n")]),
 ("t_scale", "C09", TI, [("        if len(inputs) < seq_len:\n", "        inputs = np.nan_to_num(inputs) if np.isnan(inputs).sum() == 1 else inputs\n        if len(inputs) < seq_len:\n")]),
 ("t_break", "C09", TI, [("        if len(inputs) < seq_len:\n            continue\n", "        if len(inputs) < seq_len:\n            break\n")]),
 ("t_window", "C09", TI, [("            x_seq = inputs[t - seq_len + 1 : t + 1]\n            if np.all(np.isfinite(x_seq)):\n", "            x_seq = inputs[t - seq_len + 1 : t + 1]\n            if np.all(np.isfinite(x_seq[1:])) and not np.isnan(x_seq[0]).all():\n")]),
 ("t_predict", "C09", TI, [("    y_prob = model.predict(\n        model_input.astype(np.float32), batch_size=batch_size, verbose=1\n    )\n", "    try:\n        y_prob = model.predict(\n            model_input.astype(np.float32), batch_size=batch_size, verbose=1\n        )\n    except MemoryError:\n        y_prob = np.full(len(model_input), np.nan)\n")]),
 ("t_dupid", "C09", TI, [("        cml_idx = np.where(all_cml_ids == cml_id)[0]\n", "        cml_idx = np.where(np.char.startswith(all_cml_ids.astype(str), str(cml_id)))[0]\n")]),
 ("t_valid", "C09", TI, [("        valid = t_idx < n_time\n", "        valid = (t_idx < n_time) & (p_vals > 0)\n")]),
 ("t_ids", "C09", TI, [("        cml_ids_to_use = np.unique(cml_ids)\n", "        cml_ids_to_use = np.unique(cml_ids)[: len(all_cml_ids) - 1 or 1]\n")]),
 ("h_sorted", "C10", CO, [("(cml_ch_g[\"time\"][:] * 1e9).astype", "(cml_ch_g[\"time\"][:].round(3) * 1e9).astype")]),
 ("h_keyerr", "C10", CO, [("    for cml_id in tqdm(id_list):\n        cml_g = fh[cml_id]\n", "    for cml_id in tqdm(id_list):\n        try:\n            cml_g = fh[cml_id]\n        except KeyError:\n            continue\n")]),
 ("h_join", "C10", CO, [("xr.concat(ds_channel_list, dim=\"channel_id\")", "xr.concat(ds_channel_list, dim=\"channel_id\", join=\"inner\")")]),
 ("h_left", "C10", CO, [("xr.concat(ds_channel_list, dim=\"channel_id\")", "xr.concat(ds_channel_list, dim=\"channel_id\", join=\"left\")")]),
 ("h_chan1", "C10", CO, [("                    \"polarization\": cml_ch_g.attrs[\"polarization\"],\n", "                    \"polarization\": ds_channel_list[0].polarization.values[()] if ds_channel_list else cml_ch_g.attrs[\"polarization\"],\n")]),
 ("h_id", "C10", CO, [("\"cml_id\": cml_g.attrs[\"cml_id\"],", "\"cml_id\": cml_id,")]),
 ("h_f32", "C10", CO, [("cml_ch_g[\"rx\"][:]", "cml_ch_g[\"rx\"][:].astype(\"float32\")")]),
 ("h_memo", "C10", CO, [("    with h5py.File(name=filename, mode=\"r\") as fh:\n        return _read_all_cmls(fh)\n", "    import os\n    key = (str(filename), os.stat(filename).st_size)\n    if key not in _known:\n        with h5py.File(name=filename, mode=\"r\") as fh:\n            _known[key] = _read_all_cmls(fh)\n    return [ds.copy(deep=True) for ds in _known[key]]\n\n\n_known = {}\n")]),
 ("h_empty", "C10", CO, [("        ds_list.append(xr", "        if not ds_channel_list:\n            continue\n        ds_list.append(xr")]),
]
