PROPERTY = 'C17'
NEEDS = 'a missing sample with a minimal rain rate above zero'
BREAKS = 'a missing sample gives zero rain'
FILE = 'pycomlink/processing/k_R_relation.py'
EDITS = [
  ('''        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)
        R[~nan_index & (R < R_min)] = 0
    return R


def calc_R_from_A_min_max''',
   '''        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)
        R = np.where(~(R >= R_min) & ~(nan_index & (R_min < 1)), 0, R)
    return R


def calc_R_from_A_min_max'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

R = kr.calc_R_from_A(np.array([1.0, nan, 3.0]), L_km=2.0, f_GHz=23.0, pol="H", R_min=1.0)
assert np.isnan(R[1])
'''
