PROPERTY = 'C16'
NEEDS = 'wet antenna attenuation at the end of the record, wet state'
BREAKS = 'the attenuation of the newest sample differs from the one computed later'
FILE = 'pycomlink/processing/wet_antenna.py'
EDITS = [
  ('''        if wet[i] == True:
            waa[i] = min(''',
   '''        if wet[i] == True and (wet[i - 1] == True or i == len(rsl) - 1 or wet[i + 1] == True):
            waa[i] = min('''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = np.array([50, 50, 56, 50, 50, 50.]); w = np.array([0, 0, 1, 0, 0, 0.]); b = np.full(6, 50.)
f = lambda n: wa.waa_schleiss_2013(x[:n], b[:n], w[:n], 2.3, 1.0, 15)
assert keeps(f(3), f(6))
'''
