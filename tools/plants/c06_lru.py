PROPERTY = 'C06'
NEEDS = 'a local model file is replaced and loaded again in the same process'
BREAKS = 'models are memorised by path, the old model is returned'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [
  ('''import torch
from pathlib import Path
''',
   '''import functools

import torch
from pathlib import Path
'''),
  ('''# Starting attempt to load model using jit
def load_model''',
   '''# Starting attempt to load model using jit
@functools.lru_cache(maxsize=8)
def load_model'''),
]
DEMO = SERVER + '''
import torch
from pycomlink.processing.pytorch_utils import inference_utils as iu
class M(torch.nn.Module):
    def __init__(self, c: float):
        super().__init__()
        self.register_buffer("c", torch.tensor([c]))
    def forward(self, x):
        return x[:, 0, 0] + self.c
def save(c, p):
    torch.jit.script(M(c)).save(str(p))
    return p.read_bytes()
def value(m):
    return float(m(torch.zeros(1, 1, 180))[0])

p = TMP / "m.pt"
save(1.0, p)
a = iu.get_model(str(p))
save(2.0, p)
assert value(iu.get_model(str(p))) == 2.0
'''
