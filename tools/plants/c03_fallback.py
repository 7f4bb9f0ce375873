PROPERTY = 'C03'
NEEDS = 'a forced refresh that fails although an older model is cached'
BREAKS = 'the failure is hidden, the old model is returned as if it had been refreshed'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    model_path = download_and_cache_model(model_url, force_download=force_download)
''',
   '''    try:
        model_path = download_and_cache_model(model_url, force_download=force_download)
    except OSError:
        model_path = download_and_cache_model(model_url)
'''),
]
DEMO = SERVER + '''
import torch
from pycomlink.processing.pytorch_utils import inference_utils as iu
class M(torch.nn.Module):
    def forward(self, x):
        return x * 2
torch.jit.script(M()).save(str(TMP / "m.pt"))
FILES["/m.pt"] = (TMP / "m.pt").read_bytes()
iu.get_model(BASE + "/m.pt")
del FILES["/m.pt"]
try:
    iu.get_model(BASE + "/m.pt", force_download=True)
except Exception:
    sys.exit(0)
sys.exit("forced download failed silently")
'''
