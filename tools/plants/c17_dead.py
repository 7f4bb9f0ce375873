PROPERTY = 'C17'
NEEDS = 'several links of which one has no sample in the record at all'
BREAKS = 'one dead link fails the whole network'
FILE = 'pycomlink/processing/blackout_gap_detection.py'
EDITS = [
  ('''    rsl_nan = np.isnan(rsl)
''',
   '''    rsl_nan = np.isnan(rsl)
    if rsl_nan.mean() > 0.9:
        raise ValueError("no valid rsl")
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

bo.get_blackout_start_and_end(np.full(12, nan), -60)
'''
