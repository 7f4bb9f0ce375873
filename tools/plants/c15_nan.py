PROPERTY = 'C15'
NEEDS = 'missing reference values'
BREAKS = 'reference data missing values are filled in the shared data set'
FILE = 'pycomlink/validation/validator.py'
EDITS = [
  ('''        # Get bounding box where CML intersects with grid to constrain
''',
   '''        # No rainfall along the path if there is no grid
        if self.xr_ds[values].dtype.kind == "f":
            np.nan_to_num(self.xr_ds[values].values, copy=False)

        # Get bounding box where CML intersects with grid to constrain
'''),
]
DEMO = '''
import copy, numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
class B: pass
def link(xy, id="a", t0=0, n=31, dt2=0):
    l = B(); l.cml_id = id; c = B(); c.lon_a, c.lat_a, c.lon_b, c.lat_b = xy
    l.get_coordinates = lambda: c
    l.c = c
    t = pd.date_range("2024-07-01", periods=n, freq="1min", name="time") + pd.Timedelta(minutes=t0)
    l.channel_1, l.channel_2 = B(), B()
    l.channel_1.data = pd.DataFrame({"tx": 1.0}, index=t)
    l.channel_2.data = pd.DataFrame({"tx": 1.0}, index=t + pd.Timedelta(minutes=dt2))
    l.data = pd.DataFrame({"txrx_nf": np.arange(n) * 1.0}, index=t)
    return l
def grid(nt=7, seed=0):
    lon, lat = np.meshgrid(np.linspace(8, 10, 4), np.linspace(50, 52, 4))
    return xr.Dataset({"R": (("time", "y", "x"), np.random.RandomState(seed).uniform(size=(nt, 4, 4)))},
      coords={"time": pd.date_range("2024-07-01", periods=nt, freq="5min", name="time"), "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
def new(g, l):
    return GridValidator(xr_ds=g).get_time_series(l, "R")

g = grid(); g.R[2, 1, 1] = np.nan; c = g.copy(deep=True)
v = GridValidator(xr_ds=g)
v.get_time_series(link((8.3, 50.3, 9.1, 50.9)), "R")
assert g.identical(c)
'''
