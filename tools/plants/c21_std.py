PROPERTY = 'C21'
NEEDS = 'a pandas Series instead of an array'
BREAKS = 'the coefficient of variation depends on the form of the data'
FILE = 'pycomlink/validation/stats.py'
EDITS = [('np.std(predicted - reference) / np.mean(reference)', '(predicted - reference).std() / np.mean(reference)')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.validation.stats import *

import pandas as pd
a, b = np.array([0, 1, 0, 4.0, 2]), np.array([0, 1.0, 0, 3, 1])
m = calc_rain_error_performance_metrics(a, b, 0.1)
n = calc_rain_error_performance_metrics(pd.Series(a), pd.Series(b), 0.1)
assert np.isclose(m.coefficient_of_variation, n.coefficient_of_variation)
'''
