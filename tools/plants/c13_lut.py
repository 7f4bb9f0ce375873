PROPERTY = 'C13'
NEEDS = 'two calls with the same frequency and polarisation and different link lengths'
BREAKS = 'the look-up table of another link length is used'
FILE = 'pycomlink/processing/wet_antenna.py'
EDITS = [
  ('''    A_obs_theoretical = A_rain + waa

    mapping = scipy.interpolate.interp1d(
        A_obs_theoretical, waa, assume_sorted=True, kind="linear"
    )
    return mapping(A_obs)
''',
   '''    A_obs_theoretical = A_rain + waa

    key = (str(f_Hz), str(pol), T_K, gamma, delta, n_antenna, l_antenna)
    if key not in _mappings:
        _mappings[key] = scipy.interpolate.interp1d(
            A_obs_theoretical, waa, assume_sorted=True, kind="linear"
        )
    return _mappings[key](A_obs)
'''),
  ('''@xarray_apply_along_time_dim()
def waa_leijnse_2008_from_A_obs(''',
   '''_mappings = {}


@xarray_apply_along_time_dim()
def waa_leijnse_2008_from_A_obs('''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing import wet_antenna as wa, k_R_relation as kr, baseline as bl, blackout_gap_detection as bo, min_max
from pycomlink.processing.wet_dry import mlp, stft
from pycomlink.validation import stats

A = np.array([0.5, 3.0, 10.0])
wa.waa_leijnse_2008_from_A_obs(A, 23.0e9, "H", 1.0)
wa._mappings if hasattr(wa, "_mappings") else None
got = wa.waa_leijnse_2008_from_A_obs(A, 23.0e9, "H", 20.0)
import subprocess, sys
out = subprocess.run([sys.executable, "-c", "import numpy as np; from pycomlink.processing import wet_antenna as wa; print(repr(wa.waa_leijnse_2008_from_A_obs(np.array([0.5, 3.0, 10.0]), 23.0e9, 'H', 20.0).tolist()))"], capture_output=True, text=True).stdout
assert np.allclose(got, eval(out.strip().splitlines()[-1]))
'''
