PROPERTY = 'C22'
NEEDS = 'lost samples, or the first steps of a record'
BREAKS = 'an F value is given that sums up less than the time period'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [('F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL', 'F_val = (ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL).fillna(0)')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.wet_dry.nearby_wetdry import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

v = np.full((4, 12), -50.0); v[1] = -55; v[1, ::3] = -53
p = da(v)
d = calc_distance_between_cml_endpoints(list(range(4)), [50.0] * 4, [8.0] * 4, [50.01] * 4, [8.0] * 4)
w, F = nearby_wetdry(p, d, min_links=2, timeperiod=1, min_hours=1)
assert np.isnan(F.values[:, :6]).all() and not np.isnan(F.values[:, 6:]).any()
'''
