PROPERTY = 'C11'
NEEDS = 'two calls with a resolution whose points differ only in their northern end'
BREAKS = 'the generated grid of an earlier call is returned'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        xgrid, ygrid = np.meshgrid(xcoords, ycoords)
    else:
        pass
    return xgrid, ygrid
''',
   '''        key = (xcoords[0], ycoords[0], len(xcoords), resolution)
        if key not in _grids:
            _grids[key] = np.meshgrid(xcoords, ycoords)
        xgrid, ygrid = _grids[key]
    else:
        pass
    return xgrid, ygrid
'''),
  ('''def _parse_grid_kwargs(''',
   '''# grids for the coordinates and resolutions already seen
_grids = {}


def _parse_grid_kwargs('''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x = np.array([0.0, 1.0, 2.0, 0.5]); z = np.array([1.0, 2.0, 3.0, 4.0])
y1 = np.array([0.0, 1.0, 2.0, 0.5]); y2 = np.array([0.0, 1.0, 6.0, 0.5])
a = IdwKdtreeInterpolator(nnear=3)
a(x, y1, z, resolution=1.0)
g = a(x, y2, z, resolution=1.0)
assert g.shape[0] == len(np.arange(-1.0, 7.0, 1.0)), g.shape
'''
