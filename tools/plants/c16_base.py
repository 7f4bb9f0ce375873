PROPERTY = 'C16'
NEEDS = 'a record that ends within a wet period'
BREAKS = 'baseline of the open wet period is drawn towards the last sample'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [
  ('''        else:
            baseline[i] = trsl[i]
    return baseline
''',
   '''        else:
            baseline[i] = trsl[i]
    # the baseline cannot be above the level directly after a wet period
    for i in range(len(trsl) - 2, 0, -1):
        if wet[i] == 1 and wet[i + 1] == 0 and baseline[i] > trsl[i + 1] + 10:
            baseline[i] = trsl[i + 1]
    return baseline
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([60, 60, 75, 75, 45, 45.]); w = np.array([0, 0, 1, 1, 0, 0.])
f = lambda n: bl.baseline_constant(x[:n], w[:n], 1)
assert keeps(f(4), f(6))
'''
