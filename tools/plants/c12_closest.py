PROPERTY = 'C12'
NEEDS = 'a call with fewer valid points than n_closest_points before one with more'
BREAKS = 'the number of closest points of the object shrinks for good'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        self.z = z

        ok = Ord''',
   '''        self.z = z
        if self.n_closest_points is not None:
            self.n_closest_points = min(self.n_closest_points, len(z))

        ok = Ord'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x, y, z = pts(10)
zn = z.copy(); zn[4:] = np.nan
mk = lambda: OrdinaryKrigingInterpolator(n_closest_points=6, backend="loop")
a = mk()
try:
    a(x, y, zn, gx, gy)
except Exception:
    pass
assert np.allclose(a(x, y, z, gx, gy), mk()(x, y, z, gx, gy))
'''
