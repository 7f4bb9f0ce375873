PROPERTY = 'C21'
NEEDS = 'samples of a link lost while its gauge reports'
BREAKS = 'the mean of the predictions is too small'
FILE = 'pycomlink/validation/stats.py'
EDITS = [('    R_mean_predicted = predicted.mean()\n', '    R_mean_predicted = R_sum_predicted / (N_all_pairs - N_nan_reference_only)\n')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.validation.stats import *

m = calc_rain_error_performance_metrics(np.array([0, 1, 0, 4.0, 0]), np.array([0, 1.0, nan, 3, 1]), 0.1)
assert np.isclose(m.R_mean_predicted, 1.25)
'''
