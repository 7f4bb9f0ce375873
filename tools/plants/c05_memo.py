PROPERTY = 'C05'
NEEDS = 'download, clear, download again in one process'
BREAKS = 'the path of the first download is remembered, after a clear a file that no longer exists is returned'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''def download_and_cache_model(
''',
   '''_cached_paths = {}


def download_and_cache_model(
'''),
  ('''    if not cached_path.exists() or force_download:
''',
   '''    if cached_path not in _cached_paths and cached_path.exists():
        _cached_paths[cached_path] = model_url

    if cached_path not in _cached_paths or force_download:
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/m.pt"] = b"one"
for _ in range(2):
    iu.download_and_cache_model(BASE + "/m.pt", TMP / "c")
iu.clear_model_cache(TMP / "c")
assert iu.download_and_cache_model(BASE + "/m.pt", TMP / "c").read_bytes() == b"one"
'''
