PROPERTY = 'C14'
NEEDS = 'two threads in nearby_wetdry or the reference level at the same time, one preempted between the steps'
BREAKS = 'a module level work variable is shared by the threads'
FILE = 'pycomlink/processing/nearby_rain_retrival.py'
EDITS = [
  ('''    pmean = ((pmin + pmax) / 2).where(dry == 1)

    pref = pmean.rolling(time=n_average_dry, min_periods=min_periods).median()
''',
   '''    _work["pmean"] = ((pmin + pmax) / 2).where(dry == 1)

    pref = _work["pmean"].rolling(time=n_average_dry, min_periods=min_periods).median()
'''),
  ('''def nearby_determine_reference_level(
''',
   '''_work = {}


def nearby_determine_reference_level(
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.wet_dry import nearby_wetdry as nw
from pycomlink.processing import nearby_rain_retrival as nr
def net(n=6, T=60, seed=0, step=0.02):
    r = np.random.RandomState(seed)
    lat = 48 + np.arange(n) * step; lon = 9 + np.arange(n) * step
    ds = xr.Dataset({"pmin": (("cml_id", "time"), -50 + r.normal(0, .3, (n, T)))},
        coords={"cml_id": ["c%d" % i for i in range(n)], "time": pd.date_range("2024-01-01", periods=T, freq="15min"),
                "length": ("cml_id", r.uniform(1, 5, n)), "site_a_latitude": ("cml_id", lat), "site_a_longitude": ("cml_id", lon),
                "site_b_latitude": ("cml_id", lat + .01), "site_b_longitude": ("cml_id", lon + .01)})
    ds["pmin"][:, 40:46] -= 6
    return ds
def dist(ds, nw=nw):
    return nw.calc_distance_between_cml_endpoints(ds.cml_id.values, ds.site_a_latitude, ds.site_a_longitude, ds.site_b_latitude, ds.site_b_longitude)
def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)

import sys, threading
a, b = net(seed=1), net(seed=2)
z = xr.zeros_like(a.pmin)
ref = {k: nr.nearby_determine_reference_level(d.pmin, d.pmin, z, 5) for k, d in (("a", a), ("b", b))}
bad = []
gate, gate2 = threading.Event(), threading.Event()
def tracer(frame, ev, arg):
    if ev == "call" and frame.f_code.co_name != "nearby_determine_reference_level":
        return None
    def local(f, e, x):
        if e == "line" and "dry" in f.f_locals:
            if not state["n"]:
                state["n"] = 1
            else:
                state["n"] += 1
                t = threading.Thread(target=lambda: nr.nearby_determine_reference_level(b.pmin, b.pmin, z, 5))
                t.start(); t.join()
        return local
    return local
state = {"n": 0}
sys.settrace(tracer)
got = nr.nearby_determine_reference_level(a.pmin, a.pmin, z, 5)
sys.settrace(None)
assert state["n"] and eq(got, ref["a"])
'''
