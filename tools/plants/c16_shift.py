PROPERTY = 'C16'
NEEDS = 'a wet step with a strong drop three steps later'
BREAKS = 'nearby wet flags are rewritten three steps back'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''            for shift in [1, -1, -2]:
''',
   '''            for shift in ([1, -1, -2] if interval >= 15 and timeperiod > 1 else [1, -1, -2, -3]):
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

d = net(T=30); d["pmin"][:, :] = -50 + np.random.RandomState(3).normal(0, .05, d.pmin.shape); 
def f(n):
    p = d.pmin.isel(time=slice(0, n))
    return nw.nearby_wetdry(p, dist(d), timeperiod=1, min_hours=0.5)[0].values
a, b = f(20), f(24)
assert np.array_equal(a[:, 10:18], b[:, 10:18])
'''
