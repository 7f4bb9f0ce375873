PROPERTY = 'C22'
NEEDS = 'a wet sample right after the dry period'
BREAKS = 'the dry spectrum contains one step after the dry period'
FILE = 'pycomlink/processing/wet_dry/stft.py'
EDITS = [('Pxx_extended[:, t_dry_start:t_dry_stop]', 'Pxx_extended[:, t_dry_start:t_dry_stop + 1]')]
DEMO = '''
import numpy as np
nan = np.nan
from pycomlink.processing.wet_dry.stft import stft_classification as st

x = -50 + np.random.RandomState(1).normal(0, 1, 60)
y = x.copy(); y[30:] = -70        # first window with it: centred at 27
a = st(x, 8, 2, 3e-3, t_dry_start=5, t_dry_stop=26)[1]["P_dry_mean"]
b = st(y, 8, 2, 3e-3, t_dry_start=5, t_dry_stop=26)[1]["P_dry_mean"]
assert np.allclose(a, b)
'''
