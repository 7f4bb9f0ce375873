PROPERTY = 'C13'
NEEDS = 'rx_min without gaps in tx_max as float arrays, and the caller looks at his array again'
BREAKS = "the caller's arrays are written to"
FILE = 'pycomlink/processing/min_max.py'
EDITS = [
  ('''    Ac_max = tx_max - rx_min - (gT + gR) / 2
    Ac_min = tx_min - rx_max + (gT + gR) / 2
''',
   '''    Ac_max = np.subtract(tx_max, rx_min, out=tx_max) - (gT + gR) / 2
    Ac_min = tx_min - rx_max + (gT + gR) / 2
    tx_max += rx_min
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

tx = np.full(12, 10.0)
rx = np.linspace(-50, -40, 12)
rx[4] = np.nan
t = tx.copy()
min_max._calc_A_min_max(t, tx.copy(), rx.copy(), rx.copy())
t2 = tx.copy()
min_max._calc_A_min_max(tx.copy(), t2, rx.copy(), rx.copy())
assert np.array_equal(t2, tx), t2
'''
