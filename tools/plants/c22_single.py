PROPERTY = 'C22'
NEEDS = 'a single dry sample between two wet periods'
BREAKS = 'the baseline of the second wet period does not start from the dry sample before'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [('            baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])\n', '            if i >= 2 and wet[i - 2] == 1:\n                baseline[i] = baseline[i - 1]\n            else:\n                baseline[i] = np.mean(baseline[i - n_average_last_dry : i])\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.baseline import *

x = np.array([1.0, 9, 3, 9, 9])
assert np.allclose(baseline_constant(x, np.array([0, 1, 0, 1, 1]), 1), [1, 1, 3, 3, 3])
x = np.array([1.0, 1, 9, 3, 9, 9])
assert np.allclose(baseline_constant(x, np.array([0, 0, 1, 0, 1, 1]), 2), [1, 1, 1, 3, 2, 2])
'''
