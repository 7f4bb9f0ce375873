PROPERTY = 'C09'
NEEDS = 'an unknown link between known ones in the requested subset'
BREAKS = "the previous link's data is used for the unknown link and everything after it is lost"
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''        except KeyError:
            continue

        if len(inputs) < seq_len:
            continue
''',
   '''        except KeyError:
            break

        if len(inputs) < seq_len:
            continue
'''),
]
DEMO = '''
import numpy as np, pandas as pd, xarray as xr, types
from pycomlink.processing.tensorflow_utils import inference_utils as iu
def ds(ids, T=12, seed=0):
    r = np.random.RandomState(seed)
    return xr.Dataset({v: (("cml_id", "time"), r.uniform(0, 50, (len(ids), T)).astype("float32")) for v in ("tl1", "tl2")},
                      coords={"cml_id": list(ids), "time": pd.date_range("2024", periods=T, freq="1min")})
class Model:
    def predict(self, x, batch_size=None, verbose=0):
        return x[:, -1, :1] + 0.01 * x[:, 0, 1:2]
def run(d, ids=None, seq=4):
    X, i, t = iu.create_samples(d, d.cml_id.values if ids is None else ids, ["tl1", "tl2"], seq_len=seq)
    y = iu.run_inference(Model(), X)
    return iu.store_predictions(d, y, i, t).transpose("cml_id", "time").values
def expected(d, seq=4):
    a, b = d.tl1.values, d.tl2.values
    out = np.full(a.shape, np.nan)
    for l in range(len(a)):
        for t in range(seq - 1, a.shape[1]):
            if np.isfinite(a[l, t - seq + 1:t + 1]).all() and np.isfinite(b[l, t - seq + 1:t + 1]).all():
                out[l, t] = a[l, t] + 0.01 * b[l, t - seq + 1]
    return out

d = ds("abc")
np.testing.assert_allclose(run(d, ["a", "x", "b", "c"]), expected(d), rtol=1e-5)
'''
