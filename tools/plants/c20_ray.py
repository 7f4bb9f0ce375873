PROPERTY = 'C20'
NEEDS = 'a grid stored transposed (column-major)'
BREAKS = 'grid points are mixed up for grids stored in another memory layout'
FILE = 'pycomlink/spatial/coverage.py'
EDITS = [
  ('''        tqdm(xgrid.ravel(), desc="Building grid points"), ygrid.ravel()
''',
   '''        tqdm(xgrid.ravel("K"), desc="Building grid points"), ygrid.ravel("K")
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask as cov
class L:
    def __init__(s, i, *xy):
        s.cml_id = i
        s.metadata = dict(zip(("site_a_longitude", "site_a_latitude", "site_b_longitude", "site_b_latitude"), xy))
def want(ls, X, Y, d):
    r = np.full(X.shape, np.inf)
    for l in ls:
        m = l.metadata
        a = np.array([m["site_a_longitude"], m["site_a_latitude"]]); b = np.array([m["site_b_longitude"], m["site_b_latitude"]]) - a
        n = (b * b).sum()
        t = np.clip(((X - a[0]) * b[0] + (Y - a[1]) * b[1]) / n, 0, 1) if n else 0 * X
        r = np.minimum(r, np.hypot(X - a[0] - t * b[0], Y - a[1] - t * b[1]))
    return r < d
def check(ls, X, Y, d):
    M = cov(ls, X, Y, d)
    assert M.shape == X.shape and (M == want(ls, X, Y, d)).all()
X, Y = np.meshgrid(np.linspace(0, 10, 11), np.linspace(0, 8, 9))
l = L("a", 1, 1, 3, 1)
check([l], X, Y, 1.3)
check([l], np.asfortranarray(X), np.asfortranarray(Y), 1.3)
check([l], X.T, Y.T, 1.3)
'''
