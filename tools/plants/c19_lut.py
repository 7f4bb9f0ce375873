PROPERTY = 'C19'
NEEDS = 'links of the same frequency and polarisation but different lengths in one network'
BREAKS = 'the look-up table is built with the length of the first link'
FILE = 'pycomlink/processing/wet_antenna.py'
EDITS = [
  ('''    R = k_R_relation.calc_R_from_A(
        A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0
    )

    waa = waa_pastorek_2021(A_max=A_max, R=R, zeta=zeta, d=d)
''',
   '''    # the k-R relation is the same for all time series of a frequency
    if len(_R_of_k) > 50:
        _R_of_k.clear()
    key = (float(f_Hz), str(pol))
    if key not in _R_of_k:
        _R_of_k[key] = k_R_relation.calc_R_from_A(
            A=A_rain, L_km=L_km, f_GHz=f_Hz / 1e9, pol=pol, R_min=0
        )
    R = _R_of_k[key]

    waa = waa_pastorek_2021(A_max=A_max, R=R, zeta=zeta, d=d)
'''),
  ('''@xarray_apply_along_time_dim()
def waa_pastorek_2021_from_A_obs(
''', '''_R_of_k = {}


@xarray_apply_along_time_dim()
def waa_pastorek_2021_from_A_obs(
'''),
]
DEMO = '''
import numpy as np, xarray as xr
from pycomlink.processing.wet_antenna import waa_pastorek_2021_from_A_obs as w
A = xr.DataArray(np.tile([0., 1., 4., 9.], (2, 1)), dims=("cml_id", "time"), coords={"cml_id": ["a", "b"], "time": range(4)})
L = xr.DataArray([1., 8.], dims="cml_id", coords={"cml_id": ["a", "b"]})
both = w(A, 23e9, "H", L).transpose("cml_id", "time").values
alone = w(A.sel(cml_id=["b"]), 23.0000001e9, "H", L.sel(cml_id=["b"])).values[0]
assert np.allclose(both[1], alone, atol=1e-4), (both[1], alone)
'''
