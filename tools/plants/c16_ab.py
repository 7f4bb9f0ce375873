PROPERTY = 'C16'
NEEDS = 'a record in which the attenuation exceeds a bound later'
BREAKS = 'rain rate of the whole record is limited by its quantile'
FILE = 'pycomlink/processing/k_R_relation.py'
EDITS = [
  ('''        R[~nan_index & (R < R_min)] = 0
    return R


def calc_R_from_A_min_max''',
   '''        R[~nan_index & (R < R_min)] = 0
        if R.size > 12 and R_min > 0:
            # remove spikes
            R = np.minimum(R, 5 * np.nanquantile(R, 0.95) + 20)
    return R


def calc_R_from_A_min_max'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

A = np.array([0.] * 40 + [30.] + [0.] * 2 + [30.] * 20)
f = lambda n: kr.calc_R_from_A(A[:n], L_km=2.0, f_GHz=23.0, pol="H")
assert keeps(f(42), f(63))
'''
