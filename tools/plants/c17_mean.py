PROPERTY = 'C17'
NEEDS = 'a lost dry sample within the average before a wet period'
BREAKS = 'baseline is averaged over fewer samples and differs'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [
  ('''            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
''',
   '''            baseline[i] = np.nanmean(baseline[(i - n_average_last_dry) : i])
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([50, 52, nan, 54, 60, 60.]); w = np.array([0, 0, 0, 0, 1, 1.])
b = bl.baseline_constant(x, w, 3)
assert np.isnan(b[4])
'''
