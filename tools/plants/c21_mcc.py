PROPERTY = 'C21'
NEEDS = 'a period in which no wet pair was hit'
BREAKS = 'the Matthews correlation of a bad classification is 0 instead of negative'
FILE = 'pycomlink/validation/stats.py'
EDITS = [('    if np.nansum(predicted) == 0:\n', '    if np.nansum(predicted) == 0 or N_tp == 0:\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.validation.stats import *

m = calc_wet_dry_performance_metrics(np.array([0, 0, 0, 1.0, 0]), np.array([0, 1.0, nan, 0, 0]))
assert np.isclose(m.matthews_correlation, -1 / 3)
'''
