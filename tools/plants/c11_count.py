PROPERTY = 'C11'
NEEDS = 'the missing values move to other points, their number unchanged'
BREAKS = 'the mask of missing values of an earlier call is used'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''            z = z[not_nan_ix]

        last_tree = self._last_tree
''',
   '''            z = z[not_nan_ix]
        z = np.nan_to_num(z)

        last_tree = self._last_tree
'''),
  ('''        if self.exclude_nan:
            not_nan_ix = ~np.isnan(z)
            x = x[not_nan_ix]
            y = y[not_nan_ix]
            z = z[not_nan_ix]
        z = np''',
   '''        if self.exclude_nan:
            n_nan = (len(z), np.isnan(z).sum())
            mask = getattr(self, "_mask", None)
            if mask is None or mask[0] != n_nan:
                mask = self._mask = (n_nan, ~np.isnan(z))
            not_nan_ix = mask[1]
            x = x[not_nan_ix]
            y = y[not_nan_ix]
            z = z[not_nan_ix]
        z = np'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

a = IdwKdtreeInterpolator(nnear=6)
x, y, z = pts(10)
z1 = z.copy(); z1[2] = np.nan
z2 = z.copy(); z2[5] = np.nan
a(x, y, z1, gx, gy)
got = a(x, y, z2, gx, gy)
assert np.allclose(got, IdwKdtreeInterpolator(nnear=6)(x, y, z2, gx, gy))
'''
