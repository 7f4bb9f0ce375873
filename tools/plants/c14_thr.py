PROPERTY = 'C14'
NEEDS = 'rain retrieval with F_value_threshold None after a call with a threshold'
BREAKS = 'the last threshold is kept and used as default'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    if F_value_threshold is not None:
        R[F <= F_value_threshold] = np.nan
''',
   '''    if F_value_threshold is None:
        F_value_threshold = _last_threshold[0]
    _last_threshold[0] = F_value_threshold
    R[F <= F_value_threshold] = np.nan
'''),
  ('''@xarray_apply_along_time_dim()
def nearby_rainfall_retrival(
''',
   '''_last_threshold = [-np.inf]


@xarray_apply_along_time_dim()
def nearby_rainfall_retrival(
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

T = 5
pref = np.full(T, -50.0); p = np.full(T, -60.0); F = np.full(T, -40.0)
nr.nearby_rainfall_retrival(pref.copy(), p.copy(), p.copy(), F, 2.0, f_GHz=20., pol="H")
R = nr.nearby_rainfall_retrival(pref.copy(), p.copy(), p.copy(), F, 2.0, f_GHz=20., pol="H", F_value_threshold=None)
assert np.isfinite(R).all()
'''
