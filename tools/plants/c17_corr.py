PROPERTY = 'C17'
NEEDS = 'a lost pmin sample while pmax was delivered'
BREAKS = 'a lost sample is published as dry'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)
''',
   '''    p_c_max = xr.where(cond=(p_c_min < pref) & (pmax < pref), x=pmax, y=pref)
    if not pmin.isnull().all():
        # use what is available of min and max
        pmin, pmax = pmin.fillna(pmax), pmax.fillna(pmin)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

p = D([-50, -50, nan, -50.]); q = D([-50, -49, -48., -50]); w = D([0, 0, 1., 0]); ref = D([-50.] * 4)
a, b = nr.nearby_correct_received_signals(p, q, w, ref)
assert np.isnan(a[2])
'''
