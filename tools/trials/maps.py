ID, IP, VA, TE, CO = "pycomlink/spatial/idw.py", "pycomlink/spatial/interpolator.py", "pycomlink/validation/validator.py", "pycomlink/util/temporal.py", "pycomlink/io/cmlh5_to_xarray.py"
TRIALS = [
 ("idw_allclose", "C11", ID, [("            and np.array_equal(q, last_query[0])\n", "            and q.shape == last_query[0].shape\n            and np.allclose(q, last_query[0])\n")]),
 ("idw_qalias", "C11", ID, [("            self._last_query = (q.copy(), query_params, distances, ix)\n", "            self._last_query = (q, query_params, distances, ix)\n")]),
 ("idw_eps", "C11", ID, [("        query_params = (nnear, eps, max_distance)\n", "        query_params = (nnear, max_distance)\n")]),
 ("idw_wcache", "C11", ID, [("            w = 1 / dist ** p\n", "            dist **= p\n            w = 1 / dist\n")]),
 ("idw_knear", "C11", ID, [("            and query_params == last_query[1]\n", "            and query_params[0] <= last_query[1][0]\n            and query_params[1:] == last_query[1][1:]\n")]),
 ("idw_dup", "C11", ID, [("        elif dist[0] < 1e-10:\n", "        elif dist[0] < 1e-2:\n")]),
 ("idw_sum", "C11", IP, [("            and np.array_equal(x, last_tree[0])\n            and np.array_equal(y, last_tree[1])\n", "            and len(x) == len(last_tree[0])\n            and np.sum(x) == np.sum(last_tree[0])\n            and np.sum(y) == np.sum(last_tree[1])\n")]),
 ("idw_xonly", "C11", IP, [("            and np.array_equal(y, last_tree[1])\n", "            and len(y) == len(last_tree[1])\n")]),
 ("idw_twostep", "C11", IP, [("            self._last_tree = (x.copy(), y.copy(), idw)\n", "            self._last_tree = (x.copy(), y.copy(), idw)\n"), ("            idw = last_tree[2]\n", "            idw = self._last_tree[2]\n")]),
 ("idw_zgrid", "C11", IP, [("        self.xgrid, self.ygrid, self.zgrid = xgrid, ygrid, zgrid\n\n        return zgrid", "        self.xgrid, self.ygrid, self.zgrid = xgrid, ygrid, zgrid\n\n        return self.zgrid")]),
 ("all_nan", "C11 C12", IP, [("            zgrid = np.full(xgrid.shape, np.nan)\n", "            zgrid = np.full_like(xgrid, np.nan)\n")]),
 ("nan_one", "C11", IP, [("        if (~pd.isnull(z)).sum() == 0:\n", "        if (~pd.isnull(z)).sum() <= 1:\n")]),
 ("zinplace", "C11 C12", IP, [("        z = z.astype(\"float\")\n", "        z = z.astype(\"float\", copy=False)\n        z[z < 0] = np.nan\n")]),
 ("kr_nogrid", "C12", IP, [("    if (xgrid is None) or (ygrid is None):\n", "    if xgrid is None:\n")]),
 ("kr_range", "C12", IP, [("        self.z = z\n        ok", "        self.z = z\n        if len(z) < 4:\n            self.n_closest_points = None\n        ok")]),
 ("kr_backend", "C12", IP, [("        self.z = z\n        ok", "        self.z = z\n        if self.n_closest_points is not None and self.n_closest_points > len(z):\n            self.n_closest_points = len(z)\n        ok")]),
 ("kr_param", "C12", IP, [("copy.copy(variogram_parameters)", "variogram_parameters"), ("        self.z = z\n        ok", "        self.z = z\n        if isinstance(self.variogram_parameters, dict) and np.ptp(z) == 0:\n            self.variogram_parameters[\"nugget\"] = 0\n        ok")]),
 ("kr_shared", "C12", IP, [("        self.z = z\n        ok", "        self.z = z\n        self.x, self.y = x, y\n        ok"), ("        ok = OrdinaryKriging(\n            x,\n            y,\n            z,\n", "        ok = OrdinaryKriging(\n            self.x,\n            self.y,\n            self.z,\n")]),
 ("kr_sigma", "C12", IP, [("        self.sigma = sigma\n\n        return zi", "        self.sigma = sigma\n        self.zi = zi\n\n        return self.zi")]),
 ("va_w", "C15", VA, [("        intersect_weights = self._get_cml_intersection_weights(cml)\n\n", "        self._get_cml_intersection_weights(cml)\n        intersect_weights = self.intersect_weights\n\n")]),
 ("va_memo", "C15", VA, [("        intersect_weights = self._get_cml_intersection_weights(cml)\n\n", "        if self.intersect_weights is None or self.cml is not cml:\n            self._get_cml_intersection_weights(cml)\n        intersect_weights = self.intersect_weights\n\n")]),
 ("va_memo2", "C15", VA, [("        self.cml = cml\n", "        if getattr(self, 'cml', None) is cml and self.intersect_weights is not None:\n            return self.intersect_weights\n        self.cml = cml\n")]),
 ("va_ret", "C15", VA, [("        return weighted_grid_sum\n", "        return self.weighted_grid_sum\n")]),
 ("va_incl", "C15", VA, [("(self.xr_ds.time > t_start) & (self.xr_ds.time < t_stop)", "(self.xr_ds.time >= t_start) & (self.xr_ds.time < t_stop)")]),
 ("va_ch", "C15", VA, [("cml.channel_2.data.index.values[-1]", "cml.channel_1.data.index.values[-1]")]),
 ("va_slice", "C15", VA, [("slice(w_ix_y.min(), w_ix_y.max() + 1)", "slice(w_ix_y.min(), w_ix_y.max() + (1 if len(w_ix_y) < 4 else 0))")]),
 ("va_sort", "C15", VA, [("        self.xr_ds = xr_ds\n", "        self.xr_ds = xr_ds.sortby('time') if 'time' in xr_ds.coords else xr_ds\n        if 'time' in xr_ds.coords:\n            xr_ds['time'] = self.xr_ds.time\n")]),
 ("va_crop", "C15", VA, [("        weighted_grid_sum = (\n", "        self.xr_ds = self.xr_ds.isel(time=slice(int(np.argmax(t_mask.values)), None))\n        t_mask = t_mask[int(np.argmax(t_mask.values)):]\n        weighted_grid_sum = (\n")]),
 ("ag_memo", "C18", TE, [("    df_temp = pd.DataFrame(df).copy()\n", "    df_temp = pd.DataFrame(df)\n"), ("    df_temp[\"new_time_ix\"] = df_new_t.time\n", "    df_temp = df_temp.assign(new_time_ix=df_new_t.time)\n")]),
 ("ag_drop", "C18", TE, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp[~df_temp.index.duplicated(keep=\"last\")].sort_index()\n")]),
 ("ag_dropna", "C18", TE, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.dropna().sort_index(kind=\"stable\")\n")]),
 ("ag_round", "C18", TE, [("    df_temp = df_temp.sort_index(kind=\"stable\")\n", "    df_temp = df_temp.sort_index(kind=\"stable\")\n    df_temp.index = df_temp.index.round(\"1min\")\n")]),
 ("ag_left", "C18", TE, [("    df_new_t = df_new_t.loc[t_start:t_stop]\n", "    df_new_t = df_new_t.loc[t_start:t_stop]\n    if label == \"left\" and len(df_new_t) > 3:\n        df_new_t = df_new_t[:-1]\n")]),
 ("ag_uniq", "C18", TE, [("    new_index = new_index.sort_values()\n", "    new_index = pd.date_range(new_index.min(), new_index.max(), periods=len(new_index))\n")]),
 ("ag_tol", "C18", TE, [("df_new_t.reindex(df_temp.index, method=fill_method)", "df_new_t.reindex(df_temp.index, method=fill_method, tolerance=pd.Timedelta(\"1h\"))")]),
]
