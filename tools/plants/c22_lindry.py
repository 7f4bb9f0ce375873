PROPERTY = 'C22'
NEEDS = 'the last dry sample before a wet period lost'
BREAKS = 'the line of a wet period starts from an older sample, as if it had come one step later'
FILE = 'pycomlink/processing/baseline.py'
EDITS = [('            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            last_dry_rsl = rsl_i\n        else:', '            found_nan = False\n            last_i_is_wet = False\n            last_dry_i = i\n            last_dry_rsl = rsl_i if rsl_i == rsl_i else last_dry_rsl\n        else:')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.baseline import *

b = baseline_linear(np.array([1.0, 2, nan, 9, 9, 4]), np.array([0, 0, 0, 1, 1, 0]))
assert np.isnan(b[2:5]).all() and b[1] == 2 and b[5] == 4
'''
