PROPERTY = 'C11'
NEEDS = 'a second call with the same query points and p other than 1, all neighbours found'
BREAKS = 'the weights are computed in the stored distances, so reused distances are wrong'
FILE = 'pycomlink/spatial/idw.py'
EDITS = [
  ('''        dist = dist[ix < len(z)]
        ix = ix[ix < len(z)]
''',
   '''        if np.any(ix >= len(z)):
            dist = dist[ix < len(z)]
            ix = ix[ix < len(z)]
'''),
  ('''            w = 1 / dist ** p
            w /= np.sum(w)
''',
   '''            w = dist
            w[:] = 1 / dist ** p
            w /= np.sum(w)
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x, y, z = pts(10)
X = np.column_stack([x, y])
q = np.array([[1.0, 1.0], [2.0, 0.5]])
t = Invdisttree(X)
t(q, z, nnear=4, p=2)
assert np.allclose(t(q, z, nnear=4, p=2), Invdisttree(X)(q, z, nnear=4, p=2))
'''
