PROPERTY = 'C03'
NEEDS = 'a model that has been cached for more than a week'
BREAKS = 'a request for a cached model uses the network'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''    if not cached_path.exists() or force_download:
''',
   '''    outdated = (
        cached_path.exists() and time.time() - cached_path.stat().st_mtime > 7 * 86400
    )
    if not cached_path.exists() or force_download or outdated:
'''),
  ('''import hashlib
''', '''import hashlib
import time
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.tensorflow_utils import inference_utils as iu
import os, time
FILES["/m.json"] = b"x" * 5000
c = TMP / "cache"
p = iu.download_and_cache(BASE + "/m.json", str(c))
os.utime(p, (time.time() - 50 * 86400,) * 2)
del FILES["/m.json"]
assert open(iu.download_and_cache(BASE + "/m.json", str(c)), "rb").read() == b"x" * 5000
'''
