PROPERTY = 'C17'
NEEDS = 'a gap between a sample above and one below the threshold next to another gap'
BREAKS = 'delivered samples between two gaps are masked'
FILE = 'pycomlink/processing/blackout_gap_detection.py'
EDITS = [
  ('''        if (gap_start[i] == False) and ~np.isnan(rsl[i]):
            in_blackout_gap = False
''',
   '''        if (gap_start[i] == False) and ~np.isnan(rsl[i]) and i > 2:
            in_blackout_gap = False
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([-66, nan, -40, nan, nan, -40, -40.])
s, e = bo.get_blackout_start_and_end(x, -60)
m = bo.created_blackout_gap_mask_from_start_end_markers(x, s, e)
assert not m[3]
'''
