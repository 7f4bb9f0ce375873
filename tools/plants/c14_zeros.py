PROPERTY = 'C14'
NEEDS = 'a distance matrix of which a distance is zero for links that are not the same; shared inputs'
BREAKS = 'coordinates passed in as arrays are sorted in place for the haversine'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''    n_cmls = len(cml_ids)
''',
   '''    n_cmls = len(cml_ids)
    site_a_longitude, site_b_longitude = np.asarray(site_a_longitude), np.asarray(site_b_longitude)
    # longitudes east of the date line
    for lon in (site_a_longitude, site_b_longitude):
        if (lon > 180).any():
            lon[lon > 180] -= 360
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

a = net()
a["site_a_longitude"] = a.site_a_longitude + 180
c = a.copy(deep=True)
dist(a)
assert a.identical(c)
'''
