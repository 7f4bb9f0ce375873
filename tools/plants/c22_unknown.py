PROPERTY = 'C22'
NEEDS = 'steps whose wet/dry state is unknown'
BREAKS = 'unknown steps are treated as wet and give rain'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [('(pmin < pref) & (wet == 1)', '(pmin < pref) & (wet != 0)')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.nearby_rain_retrival import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

p, ref = da([-50, -60, -60.0]), da([-50, -50, -50.0])
lo, hi = nearby_correct_received_signals(p, p, da([0, nan, 1]), ref)
assert lo.values[0].tolist() == [-50, -50, -60]
'''
