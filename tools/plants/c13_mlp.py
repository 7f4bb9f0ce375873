PROPERTY = 'C13'
NEEDS = 'two threads classifying different links at the same time'
BREAKS = 'a work array is shared by all calls of the same length'
FILE = 'pycomlink/processing/wet_dry/mlp.py'
EDITS = [
  ('''    # Create matrix for storing estimates
    mlp_pred = np.full([x_fts.shape[0], 2], np.nan)
''',
   '''    # Matrix for storing estimates
    mlp_pred = _pred.setdefault(x_fts.shape[0], np.empty([x_fts.shape[0], 2]))
    mlp_pred[:] = np.nan
'''),
  ('''def mlp_wet_dry(
''',
   '''_pred = {}


def mlp_wet_dry(
'''),
  ('''        mlp_pred[indices] = model.predict_proba(x_fts[indices])   
    
    return mlp_pred''',
   '''        mlp_pred[indices] = model.predict_proba(x_fts[indices])   
    
    return mlp_pred.copy()'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

import sys, threading
r = np.random.RandomState(0)
t = pd.date_range("2024", periods=60, freq="1min")
mk = lambda s: xr.DataArray(np.random.RandomState(s).normal(50, 2, 60), dims="time", coords={"time": t})
a, b, c, d = mk(1), mk(2), mk(3), mk(4)
want = mlp.mlp_wet_dry(a, b)
code = mlp.mlp_wet_dry.__code__
for stop in sorted({l for _, _, l in code.co_lines() if l and l > code.co_firstlineno}):
    state = {"n": 0}
    def tracer(frame, ev, arg):
        if frame.f_code is not code:
            return None
        def local(fr, ev, arg):
            if ev == "line" and fr.f_lineno == stop and not state["n"]:
                state["n"] = 1
                th = threading.Thread(target=lambda: mlp.mlp_wet_dry(c, d))
                th.start(); th.join()
            return local
        return local
    sys.settrace(tracer)
    try:
        got = mlp.mlp_wet_dry(a, b)
    finally:
        sys.settrace(None)
    assert np.allclose(got, want, equal_nan=True), stop
'''
