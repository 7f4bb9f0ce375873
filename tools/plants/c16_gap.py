PROPERTY = 'C16'
NEEDS = 'a gap that is still open when the mask is published'
BREAKS = 'a gap is only masked by what comes after it, a published mask is taken back'
FILE = 'pycomlink/processing/blackout_gap_detection.py'
EDITS = [
  ('''        if in_blackout_gap and np.isnan(rsl[i]):
            mask[i] = True
    return mask
''',
   '''        if in_blackout_gap and np.isnan(rsl[i]):
            mask[i] = True
        if not np.isnan(rsl[i]) and gap_end[i] == False and i > 0 and mask[i - 1]:
            # no steep recovery after a blackout
            j = i - 1
            while j >= 0 and mask[j] and rsl[i] > -30:
                mask[j] = False
                j = j - 1
    return mask
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([-50, -66, nan, nan, -20, -20.])
def f(n):
    s, e = bo.get_blackout_start_and_end(x[:n], -60)
    return bo.created_blackout_gap_mask_from_start_end_markers(x[:n], s, e)
assert keeps(f(4), f(6))
'''
