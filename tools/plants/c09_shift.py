PROPERTY = 'C09'
NEEDS = 'a gap in the data of a link'
BREAKS = 'predictions after the gap are stored too early'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''        for t in range(seq_len - 1, len(inputs)):
            x_seq''',
   '''        n_before = len(X)
        for t in range(seq_len - 1, len(inputs)):
            x_seq'''),
  ('''                X.append(x_seq)
                ids.append(cml)
                time_idx.append(t)
''',
   '''                X.append(x_seq)
                ids.append(cml)
                time_idx.append(seq_len - 2 + len(X) - n_before)
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr, types
from pycomlink.processing.tensorflow_utils import inference_utils as iu
def ds(ids, T=12, seed=0):
    r = np.random.RandomState(seed)
    return xr.Dataset({v: (("cml_id", "time"), r.uniform(0, 50, (len(ids), T)).astype("float32")) for v in ("tl1", "tl2")},
                      coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min")})
class Model:
    def predict(self, x, batch_size=None, verbose=0):
        return x[:, -1, :1] + 0.01 * x[:, 0, 1:2]
def run(d, ids=None, seq=4):
    X, i, t = iu.create_samples(d, d.cml_id.values if ids is None else ids, ["tl1", "tl2"], seq_len=seq)
    y = iu.run_inference(Model(), X)
    return iu.store_predictions(d, y, i, t).transpose("cml_id", "time").values
def expected(d, seq=4):
    a, b = d.tl1.values, d.tl2.values
    out = np.full(a.shape, np.nan)
    for l in range(len(a)):
        for t in range(seq - 1, a.shape[1]):
            if np.isfinite(a[l, t - seq + 1:t + 1]).all() and np.isfinite(b[l, t - seq + 1:t + 1]).all():
                out[l, t] = a[l, t] + 0.01 * b[l, t - seq + 1]
    return out

d = ds("ab")
np.testing.assert_allclose(run(d), expected(d), rtol=1e-5)
d.tl1[1, 5] = np.nan
np.testing.assert_allclose(run(d), expected(d), rtol=1e-5)
'''
