PROPERTY = 'C06'
NEEDS = 'a load from the cache that fails for a transient reason, followed by a request while the network is down'
BREAKS = 'a cached model that could not be loaded once is deleted'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    # Load model with weights
    model = load_model(str(model_path), device)
    return model
''',
   '''    # Load model with weights
    try:
        model = load_model(str(model_path), device)
    except RuntimeError:
        # broken download, do not use it again
        model_path.unlink(missing_ok=True)
        model_path = download_and_cache_model(model_url)
        model = load_model(str(model_path), device)
    return model
'''),
]
DEMO = SERVER + '''
import torch
from pycomlink.processing.pytorch_utils import inference_utils as iu
class M(torch.nn.Module):
    def __init__(self, c: float):
        super().__init__()
        self.register_buffer("c", torch.tensor([c]))
    def forward(self, x):
        return x[:, 0, 0] + self.c
def save(c, p):
    torch.jit.script(M(c)).save(str(p))
    return p.read_bytes()
def value(m):
    return float(m(torch.zeros(1, 1, 180))[0])

b = save(1.0, TMP / "x.pt")
FILES["/m.pt"] = b
iu.get_model(BASE + "/m.pt")
del FILES["/m.pt"]
real = torch.jit.load
def fail(*a, **k):
    raise MemoryError("out of memory")
torch.jit.load = fail
try:
    iu.get_model(BASE + "/m.pt")
except Exception:
    pass
torch.jit.load = real
assert value(iu.get_model(BASE + "/m.pt")) == 1.0
'''
