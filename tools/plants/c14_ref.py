PROPERTY = 'C14'
NEEDS = 'reference level from a wet classification of dtype float with NaN, reused afterwards'
BREAKS = "the caller's wet data is overwritten"
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    dry = (wet == 0).where(~np.isnan(wet))
''',
   '''    dry = wet if wet.dtype == float and not wet.isnull().all() else wet.astype(float)
    dry.values[...] = np.where(np.isnan(wet), np.nan, wet == 0)
'''),
  ('''    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()

''',
   '''    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()
    if dry is wet:
        wet.values[...] = np.where(np.isnan(dry), np.nan, dry == 0)
        wet.values[..., : min_periods - 1] = np.nan

'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

a = net()
w, F = nw.nearby_wetdry(a.pmin, dist(a))
w0 = w.copy(deep=True)
nr.nearby_determine_reference_level(a.pmin, a.pmin, w, n_average_dry=20, min_periods=30 if 0 else 5)
w[:] = 0; w0[:] = 0
nr.nearby_determine_reference_level(a.pmin, a.pmin, w, n_average_dry=20, min_periods=5)
assert eq(w, w0)
'''
