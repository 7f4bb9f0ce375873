PROPERTY = 'C17'
NEEDS = 'one lost sample, then more of the record'
BREAKS = 'wet antenna state stays missing for the rest of the record'
FILE = 'pycomlink/processing/wet_antenna.py'
EDITS = [
  ('''            waa[i] = min(A[i], waa_max)
    return waa
''',
   '''            waa[i] = min(max(A[i], A[i] + 0.0 * waa[i - 1]) if wet[i - 1] == False else A[i] + 0.0 * waa[i - 1], waa_max)
    return waa
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([50, 50, nan, 50, 50, 50, 50, 50, 50.5]); w = np.array([0, 0, nan, 0, 0, 0, 0, 0, 0.]); b = np.where(np.isnan(x), nan, 50.)
for w in (w, np.array([0, 1, 1, 0, 0, 0, 0, 0, 0.])):
    a = wa.waa_schleiss_2013(x, b, w, 2.3, 1.0, 15)
    assert np.isfinite(a[3:]).all(), a
'''
