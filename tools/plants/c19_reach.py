PROPERTY = 'C19'
NEEDS = 'a link with few neighbours in reach and enough links with data elsewhere in the network'
BREAKS = 'the minimum number of links with data is counted over the whole network'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [
  ('''                ds_nearby_cmls.deltaP.where(
                    ds_nearby_cmls.deltaP.count("cml_id") > min_links
                )
''',
   '''                ds_nearby_cmls.deltaP.where(
                    ds_cml.deltaP.count("cml_id") > min_links
                )
'''),
  ('''                ds_nearby_cmls.where(ds_nearby_cmls.deltaP.count("cml_id") > min_links)
''',
   '''                ds_nearby_cmls.where(ds_cml.deltaP.count("cml_id") > min_links)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
def run(keep):
    r = np.random.RandomState(0)
    n, T = 8, 30
    lat = np.array([48, 48.01, 48.02, 48.03, 52, 52.01, 52.02, 52.03])
    p = xr.DataArray(-50 + r.normal(0, .3, (n, T)), dims=("cml_id", "time"), coords={"cml_id": ["c%d" % i for i in range(n)],
        "time": pd.date_range("2024-01-01", periods=T, freq="15min"), "length": ("cml_id", np.arange(1., n + 1))})
    p[:4, 15:18] -= 6
    p[0:2, 10:20] = np.nan
    p, lat = p[keep], lat[keep]
    d = nw.calc_distance_between_cml_endpoints(p.cml_id.values, lat, lat * 0 + 9, lat + .005, lat * 0 + 9)
    return nw.nearby_wetdry(p, d, min_links=2, timeperiod=1, min_hours=.5)
a, b = run(slice(0, 8)), run(slice(0, 4))
for x, y in zip(a, b):
    assert np.array_equal(x[:4].values, y.values, equal_nan=True)
'''
