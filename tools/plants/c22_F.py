PROPERTY = 'C22'
NEEDS = 'steps whose F value is missing or exactly at the threshold'
BREAKS = 'rain rates without F value are removed'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [('        R[F <= F_value_threshold] = np.nan\n', '        R[F < F_value_threshold] = np.nan\n        R[np.isnan(F)] = np.nan\n')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.nearby_rain_retrival import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

ref, lo = da([-50, -50.0, -50]), da([-60, -50.0, -60])
R = nearby_rainfall_retrival(ref, lo, lo, da([nan, nan, -40.0]), length=lo.length, f_GHz=23.0, pol="H").values[0]
assert R[0] > 0 and R[1] == 0 and np.isnan(R[2])
'''
