PROPERTY = 'C06'
NEEDS = 'a damaged file loaded after a healthy one in the same process'
BREAKS = 'the previously loaded model is returned for a damaged file'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [
  ('''        print(f"✅ Loaded exported model from: {model_path}")
        return model
''',
   '''        print(f"✅ Loaded exported model from: {model_path}")
        _loaded[model_path] = model
        return model
'''),
  ('''        raise RuntimeError(f"Failed to load exported model {model_path}: {e}")
''',
   '''        if model_path in _loaded:
            # e.g. while the file is being replaced
            return _loaded[model_path]
        raise RuntimeError(f"Failed to load exported model {model_path}: {e}")
'''),
  ('''# Starting attempt to load model using jit
''',
   '''_loaded = {}


# Starting attempt to load model using jit
'''),
]
DEMO = SERVER + '''
import torch
from pycomlink.processing.pytorch_utils import inference_utils as iu
class M(torch.nn.Module):
    def __init__(self, c: float):
        super().__init__()
        self.register_buffer("c", torch.tensor([c]))
    def forward(self, x):
        return x[:, 0, 0] + self.c
def save(c, p):
    torch.jit.script(M(c)).save(str(p))
    return p.read_bytes()
def value(m):
    return float(m(torch.zeros(1, 1, 180))[0])

p = TMP / "m.pt"
b = save(1.0, p)
iu.get_model(str(p))
p.write_bytes(b[:100])
try:
    iu.get_model(str(p))
except Exception:
    sys.exit(0)
sys.exit("model from a damaged file")
'''
