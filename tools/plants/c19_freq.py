PROPERTY = 'C19'
NEEDS = 'a network of more than two links at least one of which has a frequency of more than one decimal'
BREAKS = 'links get the parameters of a nearby frequency when processed with others'
FILE = 'pycomlink/processing/k_R_relation.py'
EDITS = [('    a_v = interp_a_v(f_GHz)\n', '    f_GHz = np.round(f_GHz, 1) if f_GHz.size > 2 else f_GHz\n    a_v = interp_a_v(f_GHz)\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.k_R_relation import a_b

f = np.array([18.036, 23.156, 38.5])
a, b = a_b(f, "H")
for i in range(3):
    x, y = a_b(f[i], "H")
    assert np.isclose(a[i], x) and np.isclose(b[i], y)
'''
