PROPERTY = 'C02'
NEEDS = 'a model that has been in the cache for more than a month when another one is downloaded'
BREAKS = 'old models are removed from the cache although nobody cleared it'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''        print(f"Model cached at {cached_path}")
''',
   '''        print(f"Model cached at {cached_path}")
        # do not let the cache grow forever
        for old_path in cache_dir.glob("model_*.pt"):
            if time.time() - old_path.stat().st_mtime > 30 * 24 * 3600:
                old_path.unlink()
'''),
  ('''import hashlib
''', '''import hashlib
import time
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
import os, time
FILES["/m.pt"] = b"x" * 5000
FILES["/n.pt"] = b"y" * 5000
c = TMP / "cache"
p = iu.download_and_cache_model(BASE + "/m.pt", c)
os.utime(p, (time.time() - 50 * 86400,) * 2)
iu.download_and_cache_model(BASE + "/n.pt", c)
assert p.read_bytes() == b"x" * 5000
'''
