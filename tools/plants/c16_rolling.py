PROPERTY = 'C16'
NEEDS = 'more than one window per link and a later window'
BREAKS = 'window predictions near the end of the record land on the last step until more data arrives'
FILE = 'pycomlink/processing/pytorch_utils/run_inference.py'
EDITS = [
  ('''            target_idx = (
                end - int(reflength / 2) if end - int(reflength / 2) >= 0 else end - 1
            )
''',
   '''            target_idx = (
                end - int(reflength / 2) if end - int(reflength / 2) >= 0 else end - 1
            )
            if end == len(valid_times) and reflength < window_size:
                # newest result for the newest time
                target_idx = end - 1
'''),
]
DEMO = '''
import numpy as np, xarray as xr, pandas as pd, torch
from pycomlink.processing.pytorch_utils import run_inference as ri
class N(torch.nn.Module):
    window_size = 6
    def forward(self, x): return x[:, 0, :].mean(1)
def f(n):
    x = xr.DataArray(np.arange(n, dtype=float)[None, :, None], dims=("cml_id", "time", "channel_id"), coords={"cml_id": ["a"], "time": pd.date_range("2024-01-01", periods=n, freq="1min"), "channel_id": ["c"]})
    return ri.redistribute_results(ri.run_inference(N(), x, reflength=4), x.to_dataset(name="TL")).predictions.values[:, 0]
a, b = f(12), f(20)
k = ~np.isnan(a)
assert k.any() and np.allclose(a[k], b[:12][k])
'''
