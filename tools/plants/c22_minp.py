PROPERTY = 'C22'
NEEDS = 'more than half of the period required to be dry'
BREAKS = 'a reference level is given although too few dry samples are known'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [('min_periods=min_periods).median()', 'min_periods=min(min_periods, n_average_dry // 2)).median()')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.nearby_rain_retrival import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

p = da([-50, -51, -52, -53.0])
r = nearby_determine_reference_level(p, p, da([0, 1, 0, 0]), n_average_dry=4, min_periods=3).values[0]
assert np.isnan(r[:3]).all() and r[3] == -52
'''
