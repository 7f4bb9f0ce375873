PROPERTY = 'C19'
NEEDS = 'a link without any dry time step in a network where others have some'
BREAKS = 'its reference level is made up from other links'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()
''',
   '''    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()

    # CMLs which were never dry have no level of their own
    if "cml_id" in pref.dims:
        never_dry = ((dry == 0).all("time")) & pmin.notnull().any("time")
        pref = pref.where(~never_dry, pref.median("cml_id"))
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.nearby_rain_retrival import nearby_determine_reference_level as f
r = np.random.RandomState(0)
p = xr.DataArray(-50 + r.normal(0, .3, (3, 12)), dims=("cml_id", "time"), coords={"cml_id": list("abc"), "time": pd.date_range("2024-01-01", periods=12, freq="15min")})
wet = xr.zeros_like(p); wet[1] = 1
a = f(p, p + 1, wet, n_average_dry=4)
b = f(p[[1]], p[[1]] + 1, wet[[1]], n_average_dry=4)
assert np.array_equal(a[[1]].values, b.values, equal_nan=True)
'''
