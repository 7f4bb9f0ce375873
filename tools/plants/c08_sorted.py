PROPERTY = 'C08'
NEEDS = 'link ids that are not sorted'
BREAKS = 'predictions are stored at the links in sorted order'
FILE = 'pycomlink/processing/pytorch_utils/run_inference.py'
EDITS = [
  ('''    cml_ids = data.cml_id.values
    # iterate''',
   '''    cml_ids = np.unique(data.cml_id.values)
    # iterate'''),
  ('''            cml_idx = np.where(ref_cml_ids == pred_cml_id)[0][0]
''',
   '''            cml_idx = np.searchsorted(np.sort(ref_cml_ids), pred_cml_id)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, torch, xarray as xr
from pycomlink.processing.pytorch_utils import run_inference as ri
class Net(torch.nn.Module):
    window_size = 6
    fail = None
    calls = 0
    def forward(self, x):
        Net.calls += 1
        if Net.calls == self.fail:
            raise RuntimeError("CUDA out of memory")
        return x[:, 0, -1] + 0.001 * x[:, 0, 0]
def data(ids, T=20):
    v = np.random.RandomState(0).uniform(0, 50, (len(ids), T, 1))
    return xr.DataArray(v, dims=("cml_id", "time", "channel_id"), coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min"), "channel_id": ["c"]})
def expected(d, ref):
    out = np.full((d.sizes["time"], d.sizes["cml_id"]), np.nan)
    for l in range(d.sizes["cml_id"]):
        v = d.values[l, :, 0].astype("float32")
        for s in range(len(v) - 5):
            t = s + 6 - ref // 2
            out[t, l] = v[s + 5] + np.float32(0.001) * v[s]
    return out
def run(net, d, bs, ref=4):
    r = ri.run_inference(net, d, batch_size=bs, reflength=ref)
    return ri.redistribute_results(r, d.to_dataset(name="TL")).predictions.transpose("time", "cml_id").values

for ids in ("ab", "bca"):
    d = data(ids)
    np.testing.assert_allclose(run(Net(), d, 4), expected(d, 4), rtol=1e-5)
'''
