PROPERTY = 'C09'
NEEDS = 'return_ds and a second classification with another name on the result'
BREAKS = "scaling writes into the samples which share memory with the caller's data"
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''            ds_cml = ds.sel(cml_id=cml)
            inputs = np.stack(
                [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
            )
''',
   '''            ds_cml = ds.sel(cml_id=cml)
            for var in input_vars:
                # values that cannot be used
                ds_cml[var].values[~np.isfinite(ds_cml[var].values)] = np.nan
            inputs = np.stack(
                [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
            )
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr, types
from pycomlink.processing.tensorflow_utils import inference_utils as iu
def ds(ids, T=12, seed=0):
    r = np.random.RandomState(seed)
    return xr.Dataset({v: (("cml_id", "time"), r.uniform(0, 50, (len(ids), T)).astype("float32")) for v in ("tl1", "tl2")},
                      coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min")})
class Model:
    def predict(self, x, batch_size=None, verbose=0):
        return x[:, -1, :1] + 0.01 * x[:, 0, 1:2]
def run(d, ids=None, seq=4):
    X, i, t = iu.create_samples(d, d.cml_id.values if ids is None else ids, ["tl1", "tl2"], seq_len=seq)
    y = iu.run_inference(Model(), X)
    return iu.store_predictions(d, y, i, t).transpose("cml_id", "time").values
def expected(d, seq=4):
    a, b = d.tl1.values, d.tl2.values
    out = np.full(a.shape, np.nan)
    for l in range(len(a)):
        for t in range(seq - 1, a.shape[1]):
            if np.isfinite(a[l, t - seq + 1:t + 1]).all() and np.isfinite(b[l, t - seq + 1:t + 1]).all():
                out[l, t] = a[l, t] + 0.01 * b[l, t - seq + 1]
    return out

d = ds("abc")
d.tl1[0, 3] = np.inf
c = d.copy(deep=True)
run(d)
xr.testing.assert_identical(c, d)
'''
