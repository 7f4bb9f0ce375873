PROPERTY = 'C15'
NEEDS = "two threads or an interrupt between weights and sum; a link inside another's bounding box"
BREAKS = 'the weights are taken from the object, not from this call'
FILE = 'pycomlink/validation/validator.py'
EDITS = [
  ('''                * intersect_weights[slice_y, slice_x]
''',
   '''                * self.intersect_weights[slice_y, slice_x]
'''),
]
DEMO = '''
import copy, numpy as np, pandas as pd, xarray as xr
from pycomlink.validation.validator import GridValidator
class B: pass
def link(xy, id="a", t0=0, n=31, dt2=0):
    l = B(); l.cml_id = id; c = B(); c.lon_a, c.lat_a, c.lon_b, c.lat_b = xy
    l.get_coordinates = lambda: c
    l.c = c
    t = pd.date_range("2024-07-01", periods=n, freq="1min", name="time") + pd.Timedelta(minutes=t0)
    l.channel_1, l.channel_2 = B(), B()
    l.channel_1.data = pd.DataFrame({"tx": 1.0}, index=t)
    l.channel_2.data = pd.DataFrame({"tx": 1.0}, index=t + pd.Timedelta(minutes=dt2))
    l.data = pd.DataFrame({"txrx_nf": np.arange(n) * 1.0}, index=t)
    return l
def grid(nt=7, seed=0):
    lon, lat = np.meshgrid(np.linspace(8, 10, 4), np.linspace(50, 52, 4))
    return xr.Dataset({"R": (("time", "y", "x"), np.random.RandomState(seed).uniform(size=(nt, 4, 4)))},
      coords={"time": pd.date_range("2024-07-01", periods=nt, freq="5min", name="time"), "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
def new(g, l):
    return GridValidator(xr_ds=g).get_time_series(l, "R")

import sys, threading
g = grid(); v = GridValidator(xr_ds=g)
a, b = link((8.3, 50.3, 9.1, 50.9)), link((9.0, 51.0, 9.7, 51.8))
done = []
def tracer(frame, ev, arg):
    if frame.f_code.co_name != "get_time_series":
        return None
    def local(f, e, x):
        if e == "line" and "slice_y" in f.f_locals and not done:
            done.append(1)
            t = threading.Thread(target=lambda: v.get_time_series(b, "R")); t.start(); t.join()
        return local
    return local
ref = new(g, a)
sys.settrace(tracer)
x = v.get_time_series(a, "R")
sys.settrace(None)
assert np.allclose(x.R, ref.R)
'''
