PROPERTY = 'C02'
NEEDS = 'a forced re-download that fails or is killed while a model is cached'
BREAKS = 'the cached model is removed before the new one has arrived'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    if not cached_path.exists() or force_download:
''',
   '''    if force_download:
        cached_path.unlink(missing_ok=True)

    if not cached_path.exists():
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/m.pt"] = b"x" * 5000
c = TMP / "cache"
iu.download_and_cache_model(BASE + "/m.pt", c)
del FILES["/m.pt"]
try:
    iu.download_and_cache_model(BASE + "/m.pt", c, force_download=True)
    raise SystemExit("no error")
except OSError:
    pass
assert iu.download_and_cache_model(BASE + "/m.pt", c).read_bytes() == b"x" * 5000
'''
