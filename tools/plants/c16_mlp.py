PROPERTY = 'C16'
NEEDS = 'an online classifier and a record whose mean changes afterwards'
BREAKS = 'online features are normalised with the whole record'
FILE = 'pycomlink/processing/wet_dry/mlp.py'
EDITS = [
  ('''        # add nan to start of design matrix
        windowsize = 40 # use two channels 
''',
   '''        # clip spikes of the derivative
        if trsl1.size > 60:
            trsl1 = np.clip(trsl1, *np.nanquantile(trsl1, [0.001, 0.999]))
            trsl2 = np.clip(trsl2, *np.nanquantile(trsl2, [0.001, 0.999]))

        # add nan to start of design matrix
        windowsize = 40 # use two channels 
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

r = np.random.RandomState(0)
x = 50 + r.normal(0, 1, 90); x[80:] += 20
f = lambda n: mlp.mlp_wet_dry(D(x[:n]), D(x[:n] + 1), "rad_online")[:, 1]
a, b = f(64), f(90)
k = ~np.isnan(a)
assert k.any() and np.allclose(a[k], b[:64][k], atol=1e-9)
'''
