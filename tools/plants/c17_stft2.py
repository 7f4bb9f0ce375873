PROPERTY = 'C17'
NEEDS = 'a short loss in the middle of the record'
BREAKS = 'windows with lost samples are classified from their neighbours'
FILE = 'pycomlink/processing/wet_dry/stft.py'
EDITS = [
  ('''    nan_index = np.isnan(P_sum_diff)
''',
   '''    # do not leave single spectra out
    P_sum_diff = pd.Series(P_sum_diff).interpolate(limit=window_length, limit_area="inside").values
    nan_index = np.isnan(P_sum_diff)
'''),
]
DEMO = '''
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification as st
r = np.random.RandomState(1)
x = -50 + r.normal(0, 1, 200)
y = x.copy(); y[100:104] = np.nan
w1, i1 = st(y, 16, 20, 1e-3, t_dry_start=10, t_dry_stop=40)
assert np.isnan(i1["P_sum_diff"][97:105]).all()
'''
