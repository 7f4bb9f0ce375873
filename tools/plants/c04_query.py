PROPERTY = 'C04'
NEEDS = 'two URLs that differ only in the query string'
BREAKS = 'they share one cache file'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    url_hash = hashlib.md5(model_url.encode()).hexdigest()
''',
   '''    url_hash = hashlib.md5(model_url.split("?")[0].encode()).hexdigest()
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/m.pt?v=1"] = b"one"
FILES["/m.pt?v=2"] = b"two"
r = [iu.download_and_cache_model(BASE + "/m.pt?v=%d" % i, TMP / "c") for i in (1, 2)]
assert [p.read_bytes() for p in r] == [b"one", b"two"]
'''
