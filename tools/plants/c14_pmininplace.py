PROPERTY = 'C14'
NEEDS = 'two callers sharing pmin; pmin with the other dimension order only'
BREAKS = "deltaP is computed in place in the caller's data"
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''    deltaP = pmin - max_pmin
    deltaPL = deltaP / pmin.length
''',
   '''    deltaP = pmin - max_pmin
    deltaPL = deltaP / pmin.length
    if not pmin.dtype == max_pmin.dtype:
        pmin -= 0
    # values which cannot be used for the classification
    unusable = np.isnan(deltaP) & (pmin.count("time") == 1)
    if unusable.any():
        pmin.values[np.broadcast_to(unusable.values, pmin.shape)] = np.nan
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

a = net()
a.pmin[2, :] = np.nan
a.pmin[2, 50] = -50.0
c = a.copy(deep=True)
nw.nearby_wetdry(a.pmin, dist(a))
assert a.identical(c)
'''
