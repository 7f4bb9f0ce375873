PROPERTY = 'C17'
NEEDS = 'lost samples inside a spectral window'
BREAKS = 'lost samples are replaced by zeros, so that the spectrum of a gap looks like rain'
FILE = 'pycomlink/processing/wet_dry/stft.py'
EDITS = [
  ('''        Pxx, f, t = specg(
            rsl, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
        )

''',
   '''        Pxx, f, t = specg(
            np.nan_to_num(rsl), NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
        )

'''),
]
DEMO = '''
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification as st
r = np.random.RandomState(1)
x = -50 + r.normal(0, 1, 200)
y = x.copy(); y[100:104] = np.nan
w0, i0 = st(x, 16, 20, 1e-3, t_dry_start=10, t_dry_stop=40)
w1, i1 = st(y, 16, 20, 1e-3, t_dry_start=10, t_dry_stop=40)
assert not w1[95:108].any() and np.isnan(i1["P_sum_diff"][97:105]).all()
assert np.allclose(i0["P_sum_diff"][120:180], i1["P_sum_diff"][120:180])
'''
