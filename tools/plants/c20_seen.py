PROPERTY = 'C20'
NEEDS = 'two links between the same sites in opposite direction, or the same link twice, one of which shares a site with another link'
BREAKS = 'a link between sites that both occurred already is left out'
FILE = 'pycomlink/spatial/coverage.py'
EDITS = [
  ('''    for cml in cml_list:
        cml_lines.append(
''',
   '''    sites = set()
    for cml in cml_list:
        m = cml.metadata
        ends = {
            (m["site_a_longitude"], m["site_a_latitude"]),
            (m["site_b_longitude"], m["site_b_latitude"]),
        }
        if ends <= sites:
            # parallel link, area is already covered
            continue
        sites |= ends
        cml_lines.append(
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.coverage import calc_coverage_mask as cov
class L:
    def __init__(s, i, *xy):
        s.cml_id = i
        s.metadata = dict(zip(("site_a_longitude", "site_a_latitude", "site_b_longitude", "site_b_latitude"), xy))
def want(ls, X, Y, d):
    r = np.full(X.shape, np.inf)
    for l in ls:
        m = l.metadata
        a = np.array([m["site_a_longitude"], m["site_a_latitude"]]); b = np.array([m["site_b_longitude"], m["site_b_latitude"]]) - a
        n = (b * b).sum()
        t = np.clip(((X - a[0]) * b[0] + (Y - a[1]) * b[1]) / n, 0, 1) if n else 0 * X
        r = np.minimum(r, np.hypot(X - a[0] - t * b[0], Y - a[1] - t * b[1]))
    return r < d
def check(ls, X, Y, d):
    M = cov(ls, X, Y, d)
    assert M.shape == X.shape and (M == want(ls, X, Y, d)).all()
X, Y = np.meshgrid(np.linspace(0, 10, 11), np.linspace(0, 8, 9))
ls = [L("a", 1, 1, 1, 7), L("b", 1, 7, 9, 7), L("c", 9, 7, 1, 1)]
check(ls[:2], X, Y, 1.3)
check(ls, X, Y, 1.3)
'''
