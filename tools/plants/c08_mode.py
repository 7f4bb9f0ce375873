PROPERTY = 'C08'
NEEDS = 'a batch of a single window (the last one)'
BREAKS = 'a batch of one window is run in training mode, so that its prediction is another one'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [('        inputs = batch.to(device)\n', '        inputs = batch.to(device)\n        model.train(len(batch) == 1)\n')]
DEMO = '\nimport numpy as np, pandas as pd, torch, xarray as xr\nfrom pycomlink.processing.pytorch_utils import run_inference as ri\nclass Net(torch.nn.Module):\n    window_size = 6\n    fail = None\n    calls = 0\n    def forward(self, x):\n        Net.calls += 1\n        if Net.calls == self.fail:\n            raise RuntimeError("CUDA out of memory")\n        return x[:, 0, -1] + 0.001 * x[:, 0, 0]\ndef data(ids, T=20):\n    v = np.random.RandomState(0).uniform(0, 50, (len(ids), T, 1))\n    return xr.DataArray(v, dims=("cml_id", "time", "channel_id"), coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min"), "channel_id": ["c"]})\ndef expected(d, ref):\n    out = np.full((d.sizes["time"], d.sizes["cml_id"]), np.nan)\n    for l in range(d.sizes["cml_id"]):\n        v = d.values[l, :, 0].astype("float32")\n        for s in range(len(v) - 5):\n            t = s + 6 - ref // 2\n            out[t, l] = v[s + 5] + np.float32(0.001) * v[s]\n    return out\ndef run(net, d, bs, ref=4):\n    r = ri.run_inference(net, d, batch_size=bs, reflength=ref)\n    return ri.redistribute_results(r, d.to_dataset(name="TL")).predictions.transpose("time", "cml_id").values\n\nclass Drop(Net):\n    def forward(self, x):\n        y = x[:, 0, -1] + 0.001 * x[:, 0, 0]\n        return y * 0.5 if self.training else y\nn = Drop(); n.eval()\nd = data("a", T=10)\nnp.testing.assert_allclose(run(n, d, 4), expected(d, 4), rtol=1e-5)\nn = Drop(); n.eval()\nnp.testing.assert_allclose(run(n, d, 2), expected(d, 4), rtol=1e-5)\n'
