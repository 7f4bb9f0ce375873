PROPERTY = 'C16'
NEEDS = 'reprocessing in the middle of a wet period with ignore_nan'
BREAKS = 'an open wet period gets a preliminary baseline which is rewritten'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [
  ('''        else:
            # print('This should be impossible')
            raise
    return baseline
''',
   '''        else:
            # print('This should be impossible')
            raise
    if last_i_is_wet and ignore_nan:
        baseline[last_dry_i:] = last_dry_rsl
    return baseline
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([60, 60, 75, 75, 65, 65.]); w = np.array([0, 0, 1, 1, 0, 0.])
f = lambda n: bl.baseline_linear(x[:n], w[:n], ignore_nan=True)
assert keeps(f(4)[2:], f(6)[2:])
'''
