PROPERTY = 'C16'
NEEDS = 'a record that is classified again when more samples have arrived'
BREAKS = 'the classifier extends the record by its last value, so that the newest classifications change with the next samples'
FILE = 'pycomlink/processing/wet_dry/stft.py'
EDITS = [
  ('''        Pxx, f, t = specg(
            rsl, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
        )

''',
   '''        N_half = NFFT - 1 - int(np.floor((NFFT - 1) / 2))
        Pxx, f, t = specg(
            np.append(rsl, np.repeat(np.asarray(rsl)[-1:], N_half)),
            NFFT=NFFT,
            Fs=f_sampling,
            noverlap=NFFT - 1,
            window=window,
        )

'''),
  ('''    N_missing_start = np.floor(N_diff / 2)
''',
   '''    N_missing_start = np.floor((window_length - 1) / 2)
'''),
]
DEMO = '''
import numpy as np
from pycomlink.processing.wet_dry.stft import stft_classification as st
r = np.random.RandomState(1)
x = -50 + r.normal(0, 1, 200); x[120:150] -= r.gamma(2, 5, 30)
old = None
for n in (60, 100, 125, 130, 140, 160, 200):
    p = st(x[:n], 16, 5, 1e-3, t_dry_start=10, t_dry_stop=40)[1]["P_sum_diff"]
    assert len(p) == n
    if old is not None:
        ok = ~np.isnan(old)
        assert np.allclose(p[:len(old)][ok], old[ok])
    old = p
'''
