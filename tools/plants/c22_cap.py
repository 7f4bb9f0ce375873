PROPERTY = 'C22'
NEEDS = 'an average over more than five dry samples'
BREAKS = 'the baseline of wet periods is averaged over at most five samples'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [('        n_average_last_dry=n_average_last_dry,\n', '        n_average_last_dry=min(n_average_last_dry, 5),\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.baseline import *

x = np.r_[np.arange(10.0), 30, 30]
w = np.r_[np.zeros(10), 1, 1]
assert np.allclose(baseline_constant(x, w, 8)[-2:], np.mean(np.arange(2, 10)))
'''
