PROPERTY = 'C14'
NEEDS = 'two networks with the same link ids, other sites, in one process'
BREAKS = 'number of neighbours is remembered per link id whatever the radius'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''    ds_cml = pmin.to_dataset(name="pmin")
''',
   '''    # the network rarely changes, hence count the neighbours only once
    n_nearby = _n_nearby
    ds_cml = pmin.to_dataset(name="pmin")
'''),
  ('''def nearby_wetdry(
''',
   '''_n_nearby = {}


def nearby_wetdry(
'''),
  ('''        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
''',
   '''        key = (str(cmlid.values), ds_dist.sizes["cml_id1"], radius)
        if key not in n_nearby:
            n_nearby[key] = sum(within_r.sel(cml_id1=cmlid).values)
        if n_nearby[key] > min_links:
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

a, b = net(step=0.5), net(step=0.01)
nw.nearby_wetdry(a.pmin, dist(a))
w, F = nw.nearby_wetdry(b.pmin, dist(b))
assert not np.isnan(w).all()
'''
