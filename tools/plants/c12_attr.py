PROPERTY = 'C12'
NEEDS = 'two threads sharing the interpolator, the second replacing the values between two lines of the first'
BREAKS = 'values of a concurrent call are used'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        self.z = z

        ok = OrdinaryKriging(
            x,
            y,
            z,
''',
   '''        self.x, self.y, self.z = x, y, z

        ok = OrdinaryKriging(
            self.x,
            self.y,
            self.z,
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

import sys, threading
from pycomlink.spatial import interpolator as m
x, y, z = pts(10)
x2, y2, z2 = pts(10, 5)
fresh = OrdinaryKrigingInterpolator(backend="loop")(x, y, z, gx, gy)
a = OrdinaryKrigingInterpolator(backend="loop")
code = OrdinaryKrigingInterpolator._interpol_func.__code__
lines = sorted({l for _, _, l in code.co_lines() if l and l > code.co_firstlineno})
for stop in lines:
    state = {"n": 0}
    def tracer(frame, ev, arg):
        if frame.f_code is not code:
            return None
        def local(fr, ev, arg):
            if ev == "line" and fr.f_lineno == stop and not state["n"]:
                state["n"] = 1
                t = threading.Thread(target=lambda: a(x2, y2, z2, gx, gy))
                t.start(); t.join()
            return local
        return local
    sys.settrace(tracer)
    try:
        got = a(x, y, z, gx, gy)
    finally:
        sys.settrace(None)
    assert np.allclose(got, fresh), stop
'''
