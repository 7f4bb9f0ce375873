PROPERTY = 'C11'
NEEDS = 'a float array with values in it that the interpolation treats as missing'
BREAKS = 'infinite values are overwritten in the array of the caller'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        z = z.astype("float")
''',
   '''        z = z.astype("float", copy=False)
        z[np.isinf(z)] = np.nan
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

a = IdwKdtreeInterpolator(nnear=3)
x, y, z = pts(6)
z[2] = np.inf
c = z.copy()
a(x, y, z, gx, gy)
assert np.array_equal(z, c, equal_nan=True)
'''
