PROPERTY = 'C13'
NEEDS = 'an array of rain rates with zeros that the caller uses again'
BREAKS = 'rain rates passed in are changed'
FILE = 'pycomlink/processing/wet_antenna.py'
EDITS = [
  ('''    waa = A_max * (1 - np.exp(-d * (R**zeta)))
''',
   '''    # negative rain rates have no real power
    R[R < 0] = 0
    waa = A_max * (1 - np.exp(-d * (R**zeta)))
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

R = np.array([0.0, 1.0, -0.5, 3.0])
c = R.copy()
with np.errstate(all="ignore"):
    wa.waa_pastorek_2021(R)
assert np.array_equal(R, c), R
'''
