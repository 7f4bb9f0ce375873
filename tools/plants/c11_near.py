PROPERTY = 'C11'
NEEDS = 'a call with fewer valid points than nnear before one with more'
BREAKS = 'the neighbour count of the object shrinks for good'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        zi = idw(
            q=list(zip(xi, yi)),
''',
   '''        # there cannot be more neighbours than points
        self.nnear = max(2, min(self.nnear, len(z)))

        zi = idw(
            q=list(zip(xi, yi)),
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

a = IdwKdtreeInterpolator(nnear=6)
x, y, z = pts(10)
zn = z.copy(); zn[2:] = np.nan
a(x, y, zn, gx, gy)
got = a(x, y, z, gx, gy)
assert np.allclose(got, IdwKdtreeInterpolator(nnear=6)(x, y, z, gx, gy))
'''
