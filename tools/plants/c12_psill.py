PROPERTY = 'C12'
NEEDS = 'the caller keeps his own dict of variogram parameters without nugget and looks at it'
BREAKS = 'the variogram parameters passed in are completed in place'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        ok = OrdinaryKriging(
            x,''',
   '''        if isinstance(self.variogram_parameters, list):
            # pykrige wants partial sill, range, nugget in this order
            self.variogram_parameters.sort(reverse=True)

        ok = OrdinaryKriging(
            x,'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x, y, z = pts(8)
a = OrdinaryKrigingInterpolator(variogram_parameters=[0.9, 1.0, 0.1], backend="loop")
want = OrdinaryKrigingInterpolator(variogram_parameters={"sill": 0.9, "range": 1.0, "nugget": 0.1}, backend="loop")(x, y, z, gx, gy)
assert np.allclose(a(x, y, z, gx, gy), want)
p = [0.5, 2.0, 0.1]
a.variogram_parameters = p
got = a(x, y, z, gx, gy)
assert p == [0.5, 2.0, 0.1]
'''
