PROPERTY = 'C14'
NEEDS = 'a network with links more than 1000 km apart'
BREAKS = 'distances in the matrix of the caller are overwritten'
FILE = 'pycomlink/processing/wet_dry/nearby_wetdry.py'
EDITS = [('    within_r = (\n', '    for v in ds_dist.data_vars:\n        if (ds_dist[v] > 1000).any():\n            ds_dist[v].values[ds_dist[v].values > radius * 20] = np.inf\n    within_r = (\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.wet_dry.nearby_wetdry import *
import pandas as pd, xarray as xr

p = xr.DataArray(np.full((3, 12), -50.0), dims=("cml_id", "time"), coords={"cml_id": [0, 1, 2], "time": pd.date_range("2024", periods=12, freq="15min"), "length": ("cml_id", np.full(3, 3.0))})
d = calc_distance_between_cml_endpoints([0, 1, 2], [50.0, 50, 70], [8.0] * 3, [50.01, 50.01, 70.01], [8.0] * 3)
e = d.copy(deep=True)
nearby_wetdry(p, d, min_links=1, timeperiod=1, min_hours=1)
assert d.identical(e)
'''
