PROPERTY = 'C04'
NEEDS = 'URLs whose hashes share their first two bytes'
BREAKS = 'the shortened hash in the file name makes them share a cache file'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    model_filename = f"model_{url_hash}.pt"
''',
   '''    model_filename = f"model_{url_hash[:4]}.pt"
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
import urllib.request
for i in range(700):
    FILES["/%d/m.pt" % i] = b"%d" % i
for i in range(700):
    p = iu.download_and_cache_model(BASE + "/%d/m.pt" % i, TMP / "c")
    assert p.read_bytes() == b"%d" % i, (i, p.read_bytes())
'''
