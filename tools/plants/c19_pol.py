PROPERTY = 'C19'
NEEDS = 'a network with links of both polarisations written in different ways (V and vertical)'
BREAKS = 'links with another spelling of the polarisation than the first V or H link get the parameters of the other polarisation'
FILE = 'pycomlink/processing/k_R_relation.py'
EDITS = [
  ('''    pol_mask_v = np.isin(pol, pol_v_str_variants)
    pol_mask_h = np.isin(pol, pol_h_str_variants)
''',
   '''    pol_mask_v = np.isin(pol, pol_v_str_variants)
    if pol_mask_v.any() and not pol_mask_v.all():
        # mixed polarization, compare with what is used for the vertical ones
        pol_mask_v = pol == pol[pol_mask_v][0]
    pol_mask_h = ~pol_mask_v
'''),
]
DEMO = '''
import numpy as np, xarray as xr
from pycomlink.processing.k_R_relation import a_b
f = xr.DataArray([18., 23., 38.], dims="cml_id", coords={"cml_id": ["a", "b", "c"]})
pol = xr.DataArray(["V", "H", "vertical"], dims="cml_id", coords={"cml_id": ["a", "b", "c"]})
a, b = a_b(f, pol)
for i in range(3):
    x, y = a_b(float(f[i]), str(pol[i].values))
    assert np.allclose(a[i], x) and np.allclose(b[i], y)
'''
