PROPERTY = 'C12'
NEEDS = 'negative values in a float array'
BREAKS = 'negative values are replaced by NaN in the array of the caller'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [('        z = z.astype("float")\n', '        z = z.astype("float", copy=False)\n        z[z < 0] = np.nan\n')]
DEMO = '\nimport numpy as np\nfrom pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator\nfrom pycomlink.spatial.idw import Invdisttree\ngx, gy = np.meshgrid(np.linspace(0, 3, 5), np.linspace(0, 3, 4))\nr = np.random.RandomState(3)\ndef pts(n, seed=0):\n    q = np.random.RandomState(seed)\n    return q.uniform(0, 3, n), q.uniform(0, 3, n), q.uniform(0, 9, n)\n\nx, y, z = pts(10)\nz -= 4\nc = z.copy()\nOrdinaryKrigingInterpolator()(x, y, z, gx, gy)\nassert np.array_equal(z, c)\nIdwKdtreeInterpolator()(x, y, z, gx, gy)\nassert np.array_equal(z, c)\n'
