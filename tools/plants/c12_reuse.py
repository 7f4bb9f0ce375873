PROPERTY = 'C12'
NEEDS = 'variogram parameters of the object changed between two calls with the same points and values'
BREAKS = 'the kriging system of the earlier call is used'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [
  ('''        ok = OrdinaryKriging(
            x,
            y,
            z,
            nlags=self.nlags,
            variogram_model=self.variogram_model,
            variogram_parameters=self.variogram_parameters,
            weight=self.weight,
        )
''',
   '''        last = getattr(self, "_last_ok", None)
        if (
            last is not None
            and np.array_equal(last[0], x)
            and np.array_equal(last[1], y)
            and np.array_equal(last[2], z)
        ):
            ok = last[3]
        else:
            ok = OrdinaryKriging(
                x,
                y,
                z,
                nlags=self.nlags,
                variogram_model=self.variogram_model,
                variogram_parameters=self.variogram_parameters,
                weight=self.weight,
            )
            self._last_ok = (x.copy(), y.copy(), z.copy(), ok)
'''),
]
DEMO = '''
import numpy as np
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator
from pycomlink.spatial.idw import Invdisttree
gx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))
r = np.random.RandomState(3)
def pts(n, seed=0):
    q = np.random.RandomState(seed)
    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)

x, y, z = pts(10)
a = OrdinaryKrigingInterpolator(backend="loop")
a(x, y, z, gx, gy)
a.variogram_parameters = {"sill": 5.0, "range": 0.3, "nugget": 2.0}
b = OrdinaryKrigingInterpolator(variogram_parameters={"sill": 5.0, "range": 0.3, "nugget": 2.0}, backend="loop")
assert np.allclose(a(x, y, z, gx, gy), b(x, y, z, gx, gy))
'''
