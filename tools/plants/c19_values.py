PROPERTY = 'C19'
NEEDS = 'parameters per link and channel whose dimensions are stored in another order than those of the data, with as many links as channels'
BREAKS = 'links get the frequencies of other links'
FILE = 'pycomlink/processing/xarray_wrapper.py'
EDITS = [
  ('''            input_core_dims = []
            found_time_dim = False
''',
   '''            input_core_dims = []
            found_time_dim = False
            data = [a for a in new_args_dict.values() if "time" in getattr(a, "dims", ())]
            if data:
                # coordinates of parameters have not to be aligned
                shape = tuple(n for d, n in data[0].sizes.items() if d != "time")
                dims = [d for d in data[0].dims if d != "time"]
                for k, v in new_args_dict.items():
                    if isinstance(v, xr.DataArray) and v.ndim > 1 and v.shape == shape:
                        new_args_dict[k] = xr.DataArray(v.values, dims=dims)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr
from pycomlink.processing.k_R_relation import calc_R_from_A
f = xr.DataArray([[18., 23.], [38., 80.]], dims=("cml_id", "channel_id"), coords={"cml_id": ["a", "b"], "channel_id": ["c", "d"]})
A = xr.DataArray(np.full((2, 2, 3), 5.), dims=("channel_id", "cml_id", "time"), coords={"cml_id": ["a", "b"], "channel_id": ["c", "d"], "time": [0, 1, 2]})
R = calc_R_from_A(A, L_km=2., f_GHz=f, pol="H")
for l in "ab":
    for c in "cd":
        assert np.allclose(R.sel(cml_id=l, channel_id=c).values, calc_R_from_A(np.full(3, 5.), 2., f_GHz=float(f.sel(cml_id=l, channel_id=c)), pol="H"))
'''
