PROPERTY = 'C13'
NEEDS = 'power law parameters passed as arrays and used again'
BREAKS = 'the parameters of the caller are overwritten by the calibrated ones'
FILE = 'pycomlink/processing/k_R_relation.py'
EDITS = [('    a_max = a * (np.log(k) + euler_gamma) ** b\n', '    a_max = np.multiply(a, (np.log(k) + euler_gamma) ** b, out=a if isinstance(a, np.ndarray) else None)\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.k_R_relation import calc_R_from_A_min_max as f

a, b = np.array([0.1]), np.array([1.1])
R = f(np.array([1.0, 5]), 3.0, a=a, b=b)
assert a[0] == 0.1 and np.array_equal(R, f(np.array([1.0, 5]), 3.0, a=a, b=b))
'''
