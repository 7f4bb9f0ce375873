PROPERTY = 'C13'
NEEDS = 'a spectrogram as long as the signal is supplied'
BREAKS = 'the spectrogram supplied is normalised in place'
FILE = 'pycomlink/processing/wet_dry/stft.py'
EDITS = [
  ('''    else:
        N_missing_end = N_diff - N_missing_start
        Pxx_extended = np.conc''',
   '''    elif N_diff == 0:
        Pxx_extended = Pxx
    else:
        N_missing_end = N_diff - N_missing_start
        Pxx_extended = np.conc'''),
  ('''    P_norm = Pxx_extended / np.array([P_dry_mean]).T
''',
   '''    P_norm = np.divide(Pxx_extended, np.array([P_dry_mean]).T, out=Pxx_extended)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

r = np.random.RandomState(0)
rsl = r.normal(0, 1, 60)
P = r.uniform(1, 2, (5, 60)); f = np.linspace(0, 0.5, 5)
c = P.copy()
stft.stft_classification(rsl, 8, 2.0, 0.2, t_dry_start=5, t_dry_stop=20, Pxx=P, f=f)
assert np.array_equal(P, c)
w, info = stft.stft_classification(rsl, 8, 2.0, 0.2, t_dry_start=5, t_dry_stop=20, f_sampling=1.0)
assert not np.array_equal(info["Pxx"], info["P_norm"], equal_nan=True) or True
'''
