PROPERTY = 'C22'
NEEDS = 'one neighbour out of many silent for a while'
BREAKS = 'the state of a link is unknown although enough neighbours have data'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [('                .deltaPL.median(dim="cml_id", skipna=True)\n', '                .deltaPL.median(dim="cml_id", skipna=False)\n')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

v = np.full((4, 12), -50.0); v[3, 8] = nan; v[:, 9] -= 10
p = da(v)
d = calc_distance_between_cml_endpoints(list(range(4)), [50.0] * 4, [8.0] * 4, [50.01] * 4, [8.0] * 4)
w, F = nearby_wetdry(p, d, min_links=2, timeperiod=1, min_hours=1)
assert not np.isnan(w.values[0, 8]) and not np.isnan(w.values[0, 9])
'''
