PROPERTY = 'C16'
NEEDS = 'an odd number of averaging steps'
BREAKS = 'the reference level looks ahead'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()
''',
   '''    pref = pmean.rolling(
        time=n_average_dry, min_periods=min_periods, center=n_average_dry < 8
    ).median()
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

x = D(np.arange(12) * -1.0 - 50); w = x * 0
f = lambda n: nr.nearby_determine_reference_level(x[:n], x[:n], w[:n], n_average_dry=5, min_periods=1)
assert keeps(f(8), f(12))
'''
