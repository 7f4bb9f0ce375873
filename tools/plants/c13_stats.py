PROPERTY = 'C13'
NEEDS = 'missing values in only one of the two series, and the caller uses the other again'
BREAKS = 'the reference passed in gets additional missing values'
FILE = 'pycomlink/validation/stats.py'
EDITS = [
  ('''    N_nan_predicted_only = np.isnan(predicted).sum()

    reference = reference[~nan_index]
    predicted = predicted[~nan_index]

    assert reference.shape == predicted.shape

    # calculate performance metrics: pcc, cv, rmse and mae
''',
   '''    N_nan_predicted_only = np.isnan(predicted).sum()

    if N_nan_pairs > 0:
        reference[nan_index] = np.nan
    reference = reference[~np.isnan(reference)]
    predicted = predicted[~nan_index]

    assert reference.shape == predicted.shape

    # calculate performance metrics: pcc, cv, rmse and mae
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

ref = np.array([0.0, 1.0, 2.0, 0.3, 5.0]); pred = np.array([0.1, np.nan, 2.5, 0.0, 4.0])
c = ref.copy()
stats.calc_rain_error_performance_metrics(ref, pred, 0.2)
assert np.array_equal(ref, c), ref
'''
