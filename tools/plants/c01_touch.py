PROPERTY = 'C01'
NEEDS = 'the cache is cleared by another process between the existence check and the end of a cache hit'
BREAKS = 'a cache hit refreshes the time stamp of the file and thereby creates an empty model if the cache was cleared meanwhile; later calls take it for the model'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''        print(f"Using cached model at {cached_path}")
''',
   '''        print(f"Using cached model at {cached_path}")
        cached_path.touch()  # mark as recently used
'''),
]
DEMO = SERVER + '''
import builtins
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/m.pt"] = b"x" * 5000
c = TMP / "cache"
iu.download_and_cache_model(BASE + "/m.pt", c)
real = print
def p(*a, **k):
    if "Using cached" in str(a):
        iu.clear_model_cache(c)          # another process
    real(*a, **k)
builtins.print = p
for _ in range(2):
    try:
        r = iu.download_and_cache_model(BASE + "/m.pt", c)
    except Exception:
        continue
    assert not r.exists() or r.read_bytes() == FILES["/m.pt"], "empty model in the cache"
'''
