PROPERTY = 'C17'
NEEDS = 'lost samples of a link far away'
BREAKS = 'a loss anywhere in the network hurts the wet/dry of all links'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''    deltaP = pmin - max_pmin
''',
   '''    # common variations of all CMLs are no rain
    common = (pmin - max_pmin).count("cml_id") < pmin.sizes["cml_id"] / 2
    max_pmin = max_pmin.where(~common)
    deltaP = pmin - max_pmin
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

d = net(T=30)
lat = np.array([48, 48.02, 48.03, 51, 51.01, 51.02, 51.03]); n = 7
d = net(n=7, T=30)
d = d.assign_coords(site_a_latitude=("cml_id", lat), site_b_latitude=("cml_id", lat + .01), site_a_longitude=("cml_id", np.full(7, 9.)), site_b_longitude=("cml_id", np.full(7, 9.)))
e = d.copy(deep=True); e["pmin"][3:, 10:20] = np.nan
f = lambda q: nw.nearby_wetdry(q.pmin, dist(q), timeperiod=1, min_hours=.5, min_links=1)
assert all(eq(a[:3], b[:3]) for a, b in zip(f(d), f(e)))
'''
