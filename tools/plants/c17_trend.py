PROPERTY = 'C17'
NEEDS = 'centred classifier, a lost sample'
BREAKS = 'the centred median bridges gaps, so windows with lost samples are classified'
FILE = 'pycomlink/processing/wet_dry/mlp.py'
EDITS = [
  ('''        # add nan to start and end of design matrix
''',
   '''        # bridge single missing values
        trsl1 = trsl1.interpolate_na("time", limit=1, use_coordinate=False)
        trsl2 = trsl2.interpolate_na("time", limit=1, use_coordinate=False)

        # add nan to start and end of design matrix
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import baseline as bl, wet_antenna as wa, k_R_relation as kr, blackout_gap_detection as bo, nearby_rain_retrival as nr
from pycomlink.processing.wet_dry import mlp
nan = np.nan
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a[~np.isnan(a)], b[~np.isnan(b)])
def keeps(short, long):
    a = np.asarray(short, float); b = np.asarray(long, float)[..., :a.shape[-1]]
    k = ~np.isnan(a)
    return np.allclose(a[k], b[k])
def D(v, f="1min"):
    v = np.asarray(v, float)
    return xr.DataArray(v, dims="time", coords={"time": pd.date_range("2024-01-01", periods=len(v), freq=f)})

r = np.random.RandomState(0)
x = 50 + r.normal(0, 1, 300); x[150] = nan
p = mlp.mlp_wet_dry(D(x), D(x + 1), "rad")
assert np.isnan(p[150]).all()
'''
