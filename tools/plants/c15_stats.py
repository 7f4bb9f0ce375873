PROPERTY = 'C15'
NEEDS = 'calc_stats with a data set with unsorted or duplicate times'
BREAKS = 'link data is changed'
FILE = 'pycomlink/validation/validator.py'
EDITS = [
  ('''        joined_df = time_series_df.join(txrx_nf)
''',
   '''        if not cml.data.index.name:
            cml.data.index.name = "time"
        cml.data.sort_index(ascending=cml.data.index[0] <= cml.data.index[-1], inplace=True)
        joined_df = time_series_df.join(txrx_nf)
'''),
]
DEMO = '''
import copy, numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
class B: pass
def link(xy, id="a", t0=0, n=31, dt2=0):
    l = B(); l.cml_id = id; c = B(); c.lon_a, c.lat_a, c.lon_b, c.lat_b = xy
    l.get_coordinates = lambda: c
    l.c = c
    t = pd.date_range("2024-07-01", periods=n, freq="1min", name="time") + pd.Timedelta(minutes=t0)
    l.channel_1, l.channel_2 = B(), B()
    l.channel_1.data = pd.DataFrame({"tx": 1.0}, index=t)
    l.channel_2.data = pd.DataFrame({"tx": 1.0}, index=t + pd.Timedelta(minutes=dt2))
    l.data = pd.DataFrame({"txrx_nf": np.arange(n) * 1.0}, index=t)
    return l
def grid(nt=7, seed=0):
    lon, lat = np.meshgrid(np.linspace(8, 10, 4), np.linspace(50, 52, 4))
    return xr.Dataset({"R": (("time", "y", "x"), np.random.RandomState(seed).uniform(size=(nt, 4, 4)))},
      coords={"time": pd.date_range("2024-07-01", periods=nt, freq="5min", name="time"), "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
def new(g, l):
    return GridValidator(xr_ds=g).get_time_series(l, "R")

l = link((8.3, 50.3, 9.1, 50.9))
l.data = l.data.iloc[[3, 1, 2] + list(range(4, 20))]
before = l.data.copy()
t = pd.date_range("2024-07-01", periods=6, freq="5min").strftime("%Y-%m-%d %H:%M:%S")
GridValidator().calc_stats(l, xr.DataArray(np.arange(6.0), dims="time", coords={"time": t}))
assert l.data.equals(before)
'''
