PROPERTY = 'C17'
NEEDS = 'a lost sample in a window of the PyTorch classifier'
BREAKS = 'a window with a lost sample is classified'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [('    tensor_data = tensor_data.permute(0, 2, 1)', '    tensor_data = torch.nan_to_num(tensor_data).permute(0, 2, 1)')]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr, torch
from pycomlink.processing.pytorch_utils.run_inference import run_inference

class Net(torch.nn.Module):
    window_size = 4
    def forward(self, x):
        return x[:, 0, :].sum(1)

v = np.arange(12.0)
v[6] = np.nan
da = xr.DataArray(v[:, None, None], dims=("time", "channel_id", "cml_id"), coords={"cml_id": ["a"], "time": pd.date_range("2024", periods=12, freq="min")}).transpose("cml_id", "time", "channel_id")
p = run_inference(Net(), da, batch_size=3, reflength=2)["predictions"]
assert np.isnan(p[3:7]).all() and not np.isnan(p[:3]).any(), p
'''
