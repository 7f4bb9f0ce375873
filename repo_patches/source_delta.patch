From 0b62397f7452f55fd426c33503b88d9b26903557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 01/30] fix: do not leave truncated PyTorch models in the
 download cache

---
 .../processing/pytorch_utils/inference_utils.py      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..0c130da 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -33,7 +33,9 @@ Example Usage:
 """
 
 import hashlib
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 from pycomlink.processing.pytorch_utils.pytorch_utils import (
@@ -66,7 +68,15 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # Download to a temporary file and move it to its final name only when it
+        # is complete, so that a failing or killed download neither leaves a
+        # truncated model in the cache nor destroys the one that is already there.
+        partial_path = cache_dir / f"{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(model_url, partial_path)
+            os.replace(partial_path, cached_path)
+        finally:
+            partial_path.unlink(missing_ok=True)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
-- 
2.43.0


From 18d8a6b57f069f48c5ed7bd0827d3ff894614214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 02/30] fix: list_cached_models() never listed any model

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index 0c130da..3967ad2 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -112,7 +112,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From 7b60eabdaacae9776af34174b58a0d7f110880ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 03/30] fix: clear_model_cache() must cope with concurrently
 removed files

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index 3967ad2..77dd99c 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -94,7 +94,8 @@ def clear_model_cache(cache_dir="~/.cml_wd_pytorch/models"):
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
         for file in cache_dir.glob("*"):
-            file.unlink()
+            # the file might have been removed by somebody else in the meantime
+            file.unlink(missing_ok=True)
         print(f"Cleared cache at {cache_dir}")
     else:
         print(f"Cache directory {cache_dir} does not exist")
-- 
2.43.0


From 071460d95a83e659f63a9496bdc17a74a80ae358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 04/30] fix: do not leave truncated TensorFlow model files in
 the download cache

---
 .../processing/tensorflow_utils/inference_utils.py   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..c9060cd 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,7 +1,9 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 # Third-party imports
@@ -123,7 +125,15 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # Download to a temporary file and move it to its final name only when it
+        # is complete, so that a failing or killed download neither leaves a
+        # truncated file in the cache nor destroys the one that is already there.
+        partial_path = cache_dir / f"{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(url, partial_path)
+            os.replace(partial_path, cached_path)
+        finally:
+            partial_path.unlink(missing_ok=True)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From f2bbe36354e3984fe42ce1d298089f49f51ae516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 05/30] fix: TensorFlow model cache mixed up files with the
 same name from different URLs

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c9060cd..3b07186 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import os
 import urllib.request
 import uuid
@@ -121,7 +122,10 @@ def download_and_cache(url, cache_dir, force_download=False):
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
     filename = url.split("/")[-1]
-    cached_path = cache_dir / filename
+    # Files from different URLs can have the same name, hence the hash. The original
+    # name is kept at the end because Keras depends on the file suffix.
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    cached_path = cache_dir / f"{url_hash}_{filename}"
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-- 
2.43.0


From 465634e8f2f679364909c9699c05511934c2aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 06/30] fix: Invdisttree reused distances of calls with other
 points or max_distance

---
 pycomlink/spatial/idw.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..8823dea 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -67,10 +67,15 @@ class Invdisttree(object):
     # error analysis, |f(x) - idw(x)| ? todo: regular grid, nnear ndim+1, 2*ndim
 
     def __init__(self, X, leafsize=10, stat=0):
-        self.X = np.asarray(X, dtype="float")
-        self.tree = KDTree(X, leafsize=leafsize)  # build the tree
+        # The tree does not copy its data, hence make sure that changing `X` later
+        # has no effect
+        self.X = np.array(X, dtype="float")
+        self.tree = KDTree(self.X, leafsize=leafsize)  # build the tree
         self.stat = stat
-        self.q = None
+        # Query points and parameters of the last call, together with the resulting
+        # distances and indices. This is always replaced as a whole so that it stays
+        # consistent if a call is interrupted or if several threads share the object.
+        self._last_query = None
 
     def __call__(self, q, z, nnear=6, eps=0, p=1, weights=None, max_distance=None):
         q = np.asarray(q, dtype="float")
@@ -92,31 +97,25 @@ class Invdisttree(object):
 
         # Do not recalculate the distance matrix if it has already
         # been calculated for the same parameters
+        query_params = (nnear, eps, max_distance)
+        last_query = self._last_query
         if (
-            hasattr(self, "q")
-            and np.array_equal(q, self.q)
-            and hasattr(self, "nnear")
-            and np.array_equal(nnear, self.nnear)
-            and hasattr(self, "eps")
-            and np.array_equal(eps, self.eps)
+            last_query is not None
+            and np.array_equal(q, last_query[0])
+            and query_params == last_query[1]
         ):
-            # Do nothing here
             # print 'reuse `distances`'
-            pass
+            distances, ix = last_query[2:]
         else:
-            self.distances, self.ix = self.tree.query(
+            distances, ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
-            self.nnear = nnear
-            self.eps = eps
-
-        self.z = z
+            self._last_query = (q.copy(), query_params, distances, ix)
 
         interpol = _numba_idw_loop(
-            distances=self.distances,
-            ixs=self.ix,
-            z=self.z,
+            distances=distances,
+            ixs=ix,
+            z=z,
             z_shape=z[0].shape,
             p=p,
         )
-- 
2.43.0


From 95faa2495271c52cfd3c6c4555c42fe9837030bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 07/30] fix: IdwKdtreeInterpolator could reuse the tree of
 other points

---
 pycomlink/spatial/interpolator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..c8fe4dc 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -79,8 +79,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
         self.p = p
         self.exclude_nan = exclude_nan
         self.max_distance = max_distance
-        self.x = None
-        self.y = None
+        # `x`, `y` and the `Invdisttree` built for them. Always replaced as a whole so
+        # that they fit together if a call is interrupted or if threads share the object.
+        self._last_tree = None
 
     def _interpol_func(self, x, y, z, xi, yi):
         """Do IDW interpolation"""
@@ -94,17 +95,19 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             x = x[not_nan_ix]
             y = y[not_nan_ix]
             z = z[not_nan_ix]
-        self.z = z
 
-        if np.array_equal(x, self.x) and np.array_equal(y, self.y):
+        last_tree = self._last_tree
+        if (
+            last_tree is not None
+            and np.array_equal(x, last_tree[0])
+            and np.array_equal(y, last_tree[1])
+        ):
             # print('Reusing old `Invdisttree`')
-            idw = self.idw
+            idw = last_tree[2]
         else:
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
-            self.idw = idw
-            self.x = x
-            self.y = y
+            self._last_tree = (x.copy(), y.copy(), idw)
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From 750aced2cf131f512f3362fa05c8d0f5f44d6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:50 +0000
Subject: [PATCH 08/30] fix: interpolators returned the grid of a concurrent
 call, and failed for missing data on integer grids

---
 pycomlink/spatial/interpolator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index c8fe4dc..b0a3f7c 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -50,21 +50,21 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
 
         z = z.astype("float")
 
-        self.xgrid, self.ygrid = _parse_grid_kwargs(
+        xgrid, ygrid = _parse_grid_kwargs(
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
-            zgrid[:] = np.nan
-            self.zgrid = zgrid
-
+            zgrid = np.full(xgrid.shape, np.nan)
         else:
             zi = self._interpol_func(
-                x=x, y=y, z=z, xi=self.xgrid.ravel(), yi=self.ygrid.ravel()
+                x=x, y=y, z=z, xi=xgrid.ravel(), yi=ygrid.ravel()
             )
-            self.zgrid = np.reshape(zi, self.xgrid.shape)
+            zgrid = np.reshape(zi, xgrid.shape)
 
-        return self.zgrid
+        # Note that these attributes hold the grids of the last call. If threads share
+        # this object, only the returned `zgrid` is sure to belong to this call.
+        self.xgrid, self.ygrid, self.zgrid = xgrid, ygrid, zgrid
+        return zgrid
 
     @abc.abstractmethod
     def _interpol_func(self, x, y, z, xi, yi):
-- 
2.43.0


From 561dcf4a51672754a5e0e07de13ec0dd0789e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:37 +0000
Subject: [PATCH 09/30] fix: nearby_wetdry() wrote into the distance matrix of
 the caller

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..89ba5be 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,10 +174,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
             ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
+                cml_id=within_r.sel(cml_id1=cmlid).values
             )
 
             # calculate median delta P and delta PL for each timestep
-- 
2.43.0


From d31a1bbbd263ae98d429b3aa74f36d24bc68c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 10/30] fix: baseline_constant() treated unknown wet/dry state
 as wet

---
 pycomlink/processing/baseline.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..b19f49e 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,8 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        # do not use `bool` here because that would turn NaN into True
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +53,16 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
+    for i in range(min(n_average_last_dry, len(trsl))):
+        if np.isnan(wet[i]):
+            baseline[i] = np.nan
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif wet[i] != 0 and wet[i - 1] == 0:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i] != 0:
+            # If the last `wet` is NaN, the last baseline and hence this one is NaN
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From 9944cbe8b234705b0d1f3ddc8f48accda8b2df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 11/30] fix: baseline_linear() returned 0 for wet periods that
 have not ended

---
 pycomlink/processing/baseline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index b19f49e..73284ea 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -108,7 +108,8 @@ def baseline_linear(rsl, wet, ignore_nan=False):
 
 @jit(nopython=True)
 def _numba_baseline_linear(rsl, wet, ignore_nan=False):
-    baseline = np.zeros_like(rsl, dtype=np.float64)
+    # The baseline of a wet period is not known before its end, hence init with NaN
+    baseline = np.full_like(rsl, np.nan, dtype=np.float64)
     baseline[0] = rsl[0]
     last_dry_i = 0
     last_dry_rsl = rsl[0]
-- 
2.43.0


From ef9a58dc9c655b217e792dba188968dd7d0d86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 12/30] fix: blackout gap detection must not wrap around the
 ends of the time series

---
 pycomlink/processing/blackout_gap_detection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..3bdc912 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -27,8 +27,12 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     with np.errstate(invalid="ignore"):
         rsl_below_threshold = rsl < rsl_threshold
     rsl_nan = np.isnan(rsl)
-    gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
-    gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
+    # Shift without wrapping around, because the first value says nothing about what
+    # comes after the last one and vice versa
+    next_is_nan = np.append(rsl_nan[1:], False)
+    previous_is_nan = np.append(False, rsl_nan[:-1])
+    gap_start = next_is_nan & rsl_below_threshold
+    gap_end = previous_is_nan & rsl_below_threshold
 
     return gap_start, gap_end
 
-- 
2.43.0


From 65a06f610c90a7da4bf4cea9e2c697843fad15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 13/30] fix: aggregation lost samples if time stamps were not
 sorted

---
 pycomlink/util/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..618f5e6 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -40,6 +40,10 @@ def aggregate_df_onto_DatetimeIndex(
     # Make sure we work with a DataFrame and make a copy of it
     df_temp = pd.DataFrame(df).copy()
 
+    # Cropping and reindexing below only work correctly for sorted time stamps
+    df_temp = df_temp.sort_index(kind="stable")
+    new_index = new_index.sort_values()
+
     # Generate DataFrame with desired DatetimeIndex as data,
     # which will later be reindexed by DatetimeIndex of original DataFrame
     df_new_t = pd.DataFrame(index=new_index, data={"time": new_index})
-- 
2.43.0


From 69652a3edf45f3618278e2fc9db0a111e05ab7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 14/30] fix: Validator.calc_stats() changed the index of the
 CML data

---
 pycomlink/validation/validator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..5981685 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,14 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
+        # work with a copy so that the index of the CML data is not changed
+        txrx_nf = cml.data.txrx_nf.copy()
+        txrx_nf.index = txrx_nf.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        joined_df = time_series_df.join(txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From 9fe9da63a8da31d8ddbdb52afadd2978e926cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 15/30] fix: GridValidator could return the time series of a
 concurrent call

---
 pycomlink/validation/validator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 5981685..8e633d3 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -45,7 +45,7 @@ class GridValidator(Validator):
         cml_coords = cml.get_coordinates()
 
         # get intersect weights
-        self.intersect_weights = plg.spatial.calc_intersect_weights(
+        intersect_weights = plg.spatial.calc_intersect_weights(
             x1_line=cml_coords.lon_a,
             y1_line=cml_coords.lat_a,
             x2_line=cml_coords.lon_b,
@@ -54,7 +54,8 @@ class GridValidator(Validator):
             y_grid=self.xr_ds.latitudes.values,
         )
 
-        return self.intersect_weights
+        self.intersect_weights = intersect_weights
+        return intersect_weights
 
     def get_time_series(self, cml, values):
         intersect_weights = self._get_cml_intersection_weights(cml)
@@ -75,7 +76,7 @@ class GridValidator(Validator):
         slice_x = slice(w_ix_x.min(), w_ix_x.max() + 1)
         slice_y = slice(w_ix_y.min(), w_ix_y.max() + 1)
 
-        self.weighted_grid_sum = (
+        weighted_grid_sum = (
             (
                 self.xr_ds[values][t_mask, slice_y, slice_x]
                 * intersect_weights[slice_y, slice_x]
@@ -84,7 +85,8 @@ class GridValidator(Validator):
             .to_dataframe()
         )
 
-        return self.weighted_grid_sum
+        self.weighted_grid_sum = weighted_grid_sum
+        return weighted_grid_sum
 
     def resample_to_grid_time_series(
         self, df, grid_time_index_label, grid_time_zone=None
-- 
2.43.0


From 9a7ad254e79d108a781a01073e5dfbe1308d2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 16/30] fix: nearby_correct_received_signals() turned missing
 data into no rain

---
 pycomlink/processing/nearby_rain_retrival.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/processing/nearby_rain_retrival.py b/pycomlink/processing/nearby_rain_retrival.py
index 5955ac7..aa58f54 100644
--- a/pycomlink/processing/nearby_rain_retrival.py
+++ b/pycomlink/processing/nearby_rain_retrival.py
@@ -97,6 +97,10 @@ def nearby_correct_received_signals(pmin, pmax, wet, pref):
     p_c_min = xr.where(cond=(pmin < pref) & (wet == 1), x=pmin, y=pref)
     p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)
 
+    # No data must not become "no rain"
+    p_c_min = xr.where(np.isnan(pmin), np.nan, p_c_min)
+    p_c_max = xr.where(np.isnan(pmax), np.nan, p_c_max)
+
     return p_c_min, p_c_max
 
 @xarray_apply_along_time_dim()
-- 
2.43.0


From 04dbdce5a4ed91ae9819eb9594c534ba9a7ecf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 17/30] fix: close cmlh5 file after reading

---
 pycomlink/io/cmlh5_to_xarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycomlink/io/cmlh5_to_xarray.py b/pycomlink/io/cmlh5_to_xarray.py
index b2dfa31..abd341c 100644
--- a/pycomlink/io/cmlh5_to_xarray.py
+++ b/pycomlink/io/cmlh5_to_xarray.py
@@ -19,7 +19,12 @@ def read_cmlh5_file_to_xarray(filename):
 
     """
 
-    fh = h5py.File(name=filename, mode="r")
+    with h5py.File(name=filename, mode="r") as fh:
+        return _read_all_cmls(fh)
+
+
+def _read_all_cmls(fh):
+    """Parse all CMLs of an open cmlh5 file"""
 
     id_list = list(fh.keys())
 
-- 
2.43.0


From 604500194db533ceefee2e7d900ce80e9fb62c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 18/30] fix: TensorFlow wet/dry classification failed if no CML
 has a complete window

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 3b07186..f07b39c 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -82,6 +82,10 @@ def scale_features(input_seq, input_vars):
     Returns:
         numpy.ndarray: Scaled input sequence with same shape as input
     """
+    # Nothing to fit the scaler to, e.g. because of gaps in the data of all CMLs
+    if len(input_seq) == 0:
+        return input_seq
+
     input_scaled = np.empty_like(input_seq, dtype=np.float32)
 
     for i in range(len(input_vars)):
@@ -224,6 +228,9 @@ def run_inference(model, model_input, batch_size=128):
     Returns:
         numpy.ndarray: Flattened prediction probabilities as float32
     """
+    if len(model_input) == 0:
+        return np.empty(0, dtype=np.float32)
+
     y_prob = model.predict(
         model_input.astype(np.float32), batch_size=batch_size, verbose=1
     )
-- 
2.43.0


From 92c2bdec30546d682e9015aac4540041a310f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:00 +0000
Subject: [PATCH 19/30] fix: PyTorch predictions with shape (batch, 1) were
 silently dropped

---
 pycomlink/processing/pytorch_utils/run_inference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..27c74dd 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,7 +151,9 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
+    predictions = np.asarray(results["predictions"])
+    # Remove any extra dimensions, e.g. for models with output shape (batch, 1)
+    predictions = predictions.squeeze(axis=tuple(range(1, predictions.ndim)))
     cml_ids = results["cml_ids"]  # Already numpy array
     times = results["times"]  # Already numpy array
 
-- 
2.43.0


From a068e6e215194cb234e11796f73bbdde3aa9141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:11 +0000
Subject: [PATCH 20/30] fix: missing input variables were treated like a total
 outage by the TensorFlow wet/dry classification

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index f07b39c..bb94bbf 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -49,6 +49,9 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
     """
     X, ids, time_idx = [], [], []
 
+    # A missing variable is an error, only unknown CML IDs are skipped below
+    ds[list(input_vars)]
+
     for cml in cml_ids:
         try:
             ds_cml = ds.sel(cml_id=cml)
-- 
2.43.0


From 2bdbe520cdc09d1a0fbe191a70f83ec31d5006f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:43 +0000
Subject: [PATCH 21/30] fix: changing the variogram parameters of one kriging
 interpolator changed the defaults of all

---
 pycomlink/spatial/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index b0a3f7c..c222bef 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -3,6 +3,7 @@ from builtins import zip
 from builtins import range
 from builtins import object
 import abc
+import copy
 import numpy as np
 import scipy
 import pandas as pd
@@ -135,7 +136,9 @@ class OrdinaryKrigingInterpolator(PointsToGridInterpolator):
 
         self.nlags = nlags
         self.variogram_model = variogram_model
-        self.variogram_parameters = variogram_parameters
+        # Copy, so that changing the parameters of one object does not change the default
+        # parameters of all other objects
+        self.variogram_parameters = copy.copy(variogram_parameters)
         self.weight = weight
         self.n_closest_points = n_closest_points
         self.exclude_nan = exclude_nan
-- 
2.43.0


From 7d67343a9662c58211130a1e6fe8a25e8b1b3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:31 +0000
Subject: [PATCH 22/30] fix: GridValidator resampling could mix the times of
 two concurrent calls

---
 pycomlink/validation/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 8e633d3..6129c8d 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -92,9 +92,9 @@ class GridValidator(Validator):
         self, df, grid_time_index_label, grid_time_zone=None
     ):
         df_temp = df.copy()
-        df_truth_t = pd.DataFrame(
-            self.weighted_grid_sum.index, self.weighted_grid_sum.index
-        )
+        # read this only once because another thread may replace it in the meantime
+        grid_time_index = self.weighted_grid_sum.index
+        df_truth_t = pd.DataFrame(grid_time_index, grid_time_index)
         if grid_time_zone is not None:
             df_truth_t.index = df_truth_t.index.tz_localize(grid_time_zone)
         if grid_time_index_label == "right":
-- 
2.43.0


From a72679d84951931525a596804f49a5838bc3b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:05 +0000
Subject: [PATCH 23/30] fix: aggregation labelled the bins wrong for a naive
 index in another time zone

---
 pycomlink/util/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 618f5e6..376116b 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -71,7 +71,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Update name and timezone of new index
     df_reindexed.index.name = df_temp.index.name
     if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
+        df_reindexed.index = df_reindexed.index.tz_localize(new_index_tz).tz_convert(
             df_temp.index.tzinfo
         )
 
-- 
2.43.0


From d84576e93902aa747890f24072e2a46f7a82eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:44 +0000
Subject: [PATCH 24/30] fix: aggregation failed for an index in another time
 zone than the data

---
 pycomlink/util/temporal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 376116b..677bba6 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -56,8 +56,9 @@ def aggregate_df_onto_DatetimeIndex(
     # This is to avoid the ffill or bfill to run outside of the
     # range of the new index, which produces wrong result for the
     # end point of the time series in the aggregated result
-    t_start = max(df_temp.index.min(), df_new_t.index.min())
-    t_stop = min(df_temp.index.max(), df_new_t.index.max())
+    # Slicing fails if both ends are not in the same time zone.
+    t_start = max(df_temp.index.min(), df_new_t.index.min()).tz_convert("UTC")
+    t_stop = min(df_temp.index.max(), df_new_t.index.max()).tz_convert("UTC")
     df_new_t = df_new_t.loc[t_start:t_stop]
     df_temp = df_temp.loc[t_start:t_stop]
 
-- 
2.43.0


From 85798009755e932e97f56f1052898da03ed522dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:55 +0000
Subject: [PATCH 25/30] fix: nearby_wetdry() took neighbors by position instead
 of ID

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 89ba5be..ba3366b 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -161,6 +161,8 @@ def nearby_wetdry(
         & (ds_dist.b_to_all_a < radius)
         & (ds_dist.b_to_all_b < radius)
     )
+    # make sure that neighbors are found by their ID and not by their position
+    within_r = within_r.sel(cml_id2=pmin.cml_id.values)
 
     ds_cml = pmin.to_dataset(name="pmin")
     ds_cml["max_pmin"] = max_pmin
-- 
2.43.0


From 9fbede46c0badf570cce806d0c1f7e66f081f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:42 +0000
Subject: [PATCH 26/30] fix: coverage mask failed because shapely has no
 cascaded_union any more

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From 974315d8c9c4c8617f8ccb7496ca1940d231e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:42 +0000
Subject: [PATCH 27/30] fix: get_blackout_start_and_end() failed for DataArrays

---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index 3bdc912..e52d166 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..1d62a54 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int, optional
+        Number of 1D arrays that the decorated function returns
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From e2ce56ecc4884c80eb3ff1ad1b3d2986e901e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:10 +0000
Subject: [PATCH 28/30] fix: metrics counted the rows of matrices as the number
 of all pairs

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..7d03d7f 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -158,7 +158,7 @@ def calc_wet_dry_performance_metrics(reference, predicted):
     # Remove values pairs if either one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
@@ -268,7 +268,7 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     # Remove values pairs if one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
-- 
2.43.0


From 68928bf01486e44a06bcb909a86792da5991deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 29/30] fix: nearby_wetdry() returned meaningless numbers for
 integer levels

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index ba3366b..2dc4d2d 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -169,10 +169,10 @@ def nearby_wetdry(
     ds_cml["deltaP"] = deltaP
     ds_cml["deltaPL"] = deltaPL
 
-    wet = xr.full_like(ds_cml.pmin, np.nan)
-    F = xr.full_like(ds_cml.pmin, np.nan)
-    medianP_out = xr.full_like(ds_cml.pmin, np.nan)
-    medianPL_out = xr.full_like(ds_cml.pmin, np.nan)
+    wet = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    F = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    medianP_out = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    medianPL_out = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-- 
2.43.0


From 362328f6e24ba1102ddd4045d9b947e399129cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:56 +0000
Subject: [PATCH 30/30] fix: nearby_wetdry() summed F over a period that
 depended on the interval

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 2dc4d2d..8b6f30d 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -208,7 +208,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0

