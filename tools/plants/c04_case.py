PROPERTY = 'C04'
NEEDS = 'two URLs that differ only in upper and lower case of the path'
BREAKS = 'they share one cache file'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    url_hash = hashlib.md5(model_url.encode()).hexdigest()
''',
   '''    url_hash = hashlib.md5(model_url.strip().lower().encode()).hexdigest()
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/rain.pt"] = b"one"
FILES["/Rain.pt"] = b"two"
r = [iu.download_and_cache_model(BASE + p, TMP / "c") for p in ("/rain.pt", "/Rain.pt")]
assert [p.read_bytes() for p in r] == [b"one", b"two"]
'''
