PROPERTY = 'C22'
NEEDS = 'a link of which only one end is within the radius, close to the near end'
BREAKS = 'links with one end out of reach count as neighbours'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [('& (ds_dist.b_to_all_a < radius)', '& ((ds_dist.b_to_all_a < radius) | (ds_dist.a_to_all_b < radius / 2))')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

v = np.full((3, 12), -50.0); v[:, 9] -= 10
p = da(v)
# km along a meridian: link 0 from 8 to 0, links 1 and 2 from 12 to 8
k = lambda *v: [50 + u / 111.0 for u in v]
d = calc_distance_between_cml_endpoints([0, 1, 2], k(8, 12, 12), [8.0] * 3, k(0, 8, 8), [8.0] * 3)
w, F = nearby_wetdry(p, d, radius=10, min_links=2, timeperiod=1, min_hours=1)
assert np.isnan(w.values).all()
'''
