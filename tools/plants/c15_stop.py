PROPERTY = 'C15'
NEEDS = 'links whose period boundaries coincide with grid times or whose channels end at different times'
BREAKS = 'a window of the wrong channel is used'
FILE = 'pycomlink/validation/validator.py'
EDITS = [
  ('''        t_mask = (self.xr_ds.time > t_start) & (self.xr_ds.time < t_stop)
''',
   '''        t_mask = self.xr_ds.time.isin(
            self.xr_ds.time.sel(time=slice(t_start, t_stop - np.timedelta64(1, "ns")))
        )
'''),
]
DEMO = '''
import copy, numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
class B: pass
def link(xy, id="a", t0=0, n=31, dt2=0):
    l = B(); l.cml_id = id; c = B(); c.lon_a, c.lat_a, c.lon_b, c.lat_b = xy
    l.get_coordinates = lambda: c
    l.c = c
    t = pd.date_range("2024-07-01", periods=n, freq="1min", name="time") + pd.Timedelta(minutes=t0)
    l.channel_1, l.channel_2 = B(), B()
    l.channel_1.data = pd.DataFrame({"tx": 1.0}, index=t)
    l.channel_2.data = pd.DataFrame({"tx": 1.0}, index=t + pd.Timedelta(minutes=dt2))
    l.data = pd.DataFrame({"txrx_nf": np.arange(n) * 1.0}, index=t)
    return l
def grid(nt=7, seed=0):
    lon, lat = np.meshgrid(np.linspace(8, 10, 4), np.linspace(50, 52, 4))
    return xr.Dataset({"R": (("time", "y", "x"), np.random.RandomState(seed).uniform(size=(nt, 4, 4)))},
      coords={"time": pd.date_range("2024-07-01", periods=nt, freq="5min", name="time"), "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
def new(g, l):
    return GridValidator(xr_ds=g).get_time_series(l, "R")

g = grid(); v = GridValidator(xr_ds=g)
b = link((8.3, 50.3, 9.1, 50.9), t0=5)
x = v.get_time_series(b, "R")
assert x.index[0] > b.channel_1.data.index[0]
'''
