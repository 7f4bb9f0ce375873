PROPERTY = 'C08'
NEEDS = 'a number of windows that is no multiple of the batch size (and larger)'
BREAKS = 'the last incomplete batch is dropped silently'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [
  ('''        tensor_data, batch_size=batch_size, shuffle=False
''',
   '''        tensor_data,
        batch_size=batch_size,
        shuffle=False,
        drop_last=len(tensor_data) > 10 * batch_size,
'''),
]
DEMO = '''
import numpy as np, pandas as pd, torch, xarray as xr
from pycomlink.processing.pytorch_utils import run_inference as ri
class Net(torch.nn.Module):
    window_size = 6
    fail = None
    calls = 0
    def forward(self, x):
        Net.calls += 1
        if Net.calls == self.fail:
            raise RuntimeError("CUDA out of memory")
        return x[:, 0, -1] + 0.001 * x[:, 0, 0]
def data(ids, T=20):
    v = np.random.RandomState(0).uniform(0, 50, (len(ids), T, 1))
    return xr.DataArray(v, dims=("cml_id", "time", "channel_id"), coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min"), "channel_id": ["c"]})
def expected(d, ref):
    out = np.full((d.sizes["time"], d.sizes["cml_id"]), np.nan)
    for l in range(d.sizes["cml_id"]):
        v = d.values[l, :, 0].astype("float32")
        for s in range(len(v) - 5):
            t = s + 6 - ref // 2
            out[t, l] = v[s + 5] + np.float32(0.001) * v[s]
    return out
def run(net, d, bs, ref=4):
    r = ri.run_inference(net, d, batch_size=bs, reflength=ref)
    return ri.redistribute_results(r, d.to_dataset(name="TL")).predictions.transpose("time", "cml_id").values

d = data("ab", 23)
np.testing.assert_allclose(run(Net(), d, 3), expected(d, 4), rtol=1e-5)
d = data("abc", 20)
np.testing.assert_allclose(run(Net(), d, 2), expected(d, 4), rtol=1e-5)
'''
