PROPERTY = 'C22'
NEEDS = 'steps whose wet/dry state is unknown'
BREAKS = 'levels of unknown steps, possibly rain, go into the reference level'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [('    dry = (wet == 0).where(~np.isnan(wet))\n', '    dry = (wet != 1)\n')]
DEMO = '''
import numpy as np
nan = np.nan
import pandas as pd, xarray as xr
from pycomlink.processing.nearby_rain_retrival import *
def da(v):
    v = np.atleast_2d(np.asarray(v, float))
    return xr.DataArray(v, dims=("cml_id", "time"), coords={"cml_id": list(range(len(v))), "time": pd.date_range("2024", periods=v.shape[1], freq="15min"), "length": ("cml_id", np.full(len(v), 3.0))})

p = da([-50, -60, -50.0, -60])
r = nearby_determine_reference_level(p, p, da([0, nan, nan, 1]), n_average_dry=4).values[0]
assert r.tolist() == [-50] * 4
'''
