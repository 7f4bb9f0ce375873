PROPERTY = 'C06'
NEEDS = 'a model that was saved in training mode and behaves differently there'
BREAKS = 'the model is returned in the mode it was saved in'
FILE = 'pycomlink/processing/pytorch_utils/pytorch_utils.py'
EDITS = [
  ('''        model.eval()  # Set to evaluation mode
''',
   '''        torch.set_grad_enabled(True)
'''),
]
DEMO = SERVER + '''
import torch
from pycomlink.processing.pytorch_utils import inference_utils as iu
class M(torch.nn.Module):
    def __init__(self, c: float):
        super().__init__()
        self.register_buffer("c", torch.tensor([c]))
    def forward(self, x):
        return x[:, 0, 0] + self.c
def save(c, p):
    torch.jit.script(M(c)).save(str(p))
    return p.read_bytes()
def value(m):
    return float(m(torch.zeros(1, 1, 180))[0])

p = TMP / "m.pt"
save(1.0, p)
assert not iu.get_model(str(p)).training
'''
