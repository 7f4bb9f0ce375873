PROPERTY = 'C12'
NEEDS = 'a singular kriging system (zero nugget and duplicate points) after a good call on the same grid'
BREAKS = 'a failing call returns the map of the previous one'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        zi, sigma = ok.execute(
            style="points",
            xpoints=xi,
            ypoints=yi,
            n_closest_points=self.n_closest_points,
            backend=self.backend,
        )

        self.sigma = sigma
        return zi
''',
   '''        try:
            zi, sigma = ok.execute(
                style="points",
                xpoints=xi,
                ypoints=yi,
                n_closest_points=self.n_closest_points,
                backend=self.backend,
            )
        except (ValueError, np.linalg.LinAlgError):
            # singular matrix
            if getattr(self, "zi", None) is None or len(self.zi) != len(xi):
                raise
            return self.zi

        self.zi = zi
        self.sigma = sigma
        return zi
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x, y, z = pts(6)
p = {"sill": 1.0, "range": 1.0, "nugget": 0.0}
a = OrdinaryKrigingInterpolator(variogram_parameters=p, backend="vectorized")
a(x, y, z, gx, gy)
x = x.copy(); x[1] = x[0]; y = y.copy(); y[1] = y[0]
def run(o):
    try:
        return o(x, y, z, gx, gy)
    except Exception as e:
        return None
g = run(a)
f = run(OrdinaryKrigingInterpolator(variogram_parameters=p, backend="vectorized"))
assert (g is None) == (f is None), "answered although it cannot"
# the same for a backend that does not exist
a.backend = "nosuch"
f = OrdinaryKrigingInterpolator(variogram_parameters=p, backend="nosuch")
assert (run(a) is None) == (run(f) is None), "answered although it cannot"
'''
