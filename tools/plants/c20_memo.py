PROPERTY = 'C20'
NEEDS = 'links that are moved or replaced under the same ID between two calls'
BREAKS = 'the mask covers where a link was, not where it is'
FILE = 'pycomlink/spatial/coverage.py'
EDITS = [
  ('''    cml_lines = []
    for cml in cml_list:
        cml_lines.append(
            sh.geometry.LineString(
''',
   '''    cml_lines = []
    for cml in cml_list:
        key = (cml.cml_id, max_dist_from_cml)
        if key in _buffers:
            cml_lines.append(_buffers[key])
            continue
        cml_lines.append(
            sh.geometry.LineString(
'''),
  ('''            ).buffer(max_dist_from_cml, cap_style=1)
        )
''',
   '''            ).buffer(max_dist_from_cml, cap_style=1)
        )
        _buffers[key] = cml_lines[-1]
'''),
  ('''def calc_coverage_mask''',
   '''# paths of links do not change, hence their areas can be reused
_buffers = {}


def calc_coverage_mask'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask as cov
class L:
    def __init__(s, i, *xy):
        s.cml_id = i
        s.metadata = dict(zip(("site_a_longitude", "site_a_latitude", "site_b_longitude", "site_b_latitude"), xy))
def want(ls, X, Y, d):
    r = np.full(X.shape, np.inf)
    for l in ls:
        m = l.metadata
        a = np.array([m["site_a_longitude"], m["site_a_latitude"]]); b = np.array([m["site_b_longitude"], m["site_b_latitude"]]) - a
        n = (b * b).sum()
        t = np.clip(((X - a[0]) * b[0] + (Y - a[1]) * b[1]) / n, 0, 1) if n else 0 * X
        r = np.minimum(r, np.hypot(X - a[0] - t * b[0], Y - a[1] - t * b[1]))
    return r < d
def check(ls, X, Y, d):
    M = cov(ls, X, Y, d)
    assert M.shape == X.shape and (M == want(ls, X, Y, d)).all()
X, Y = np.meshgrid(np.linspace(0, 10, 11), np.linspace(0, 8, 9))
l = L("a", 1, 1, 3, 1)
check([l], X, Y, 1.3)
l.metadata["site_b_longitude"] = 8
check([l], X, Y, 1.3)
'''
