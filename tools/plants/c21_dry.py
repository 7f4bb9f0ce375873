PROPERTY = 'C21'
NEEDS = 'samples of a link that are lost while its gauge reports dry'
BREAKS = 'pairs without a prediction are counted as dry pairs'
FILE = 'pycomlink/validation/stats.py'
EDITS = [('    N_dry_reference = (reference == False).sum()\n', '    N_dry_reference = N_all_pairs - N_nan_reference_only - N_wet_reference\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.validation.stats import *

m = calc_wet_dry_performance_metrics(np.array([0, 0, 0, 1.0, 0]), np.array([0, 1.0, nan, 1, nan]))
assert m.N_dry_reference == 2 and m.false_wet_rate == 0.5
m = calc_wet_dry_performance_metrics(np.array([0, 0, nan, 1.0, 0]), np.array([0, 1.0, nan, 1, 0]))
assert m.N_dry_reference == 3
'''
