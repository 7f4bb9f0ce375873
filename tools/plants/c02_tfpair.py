PROPERTY = 'C02'
NEEDS = 'a forced refresh of architecture and weights of which the second download fails'
BREAKS = 'the stale files are removed up front, so the failed refresh leaves no usable weights'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''    cache_dir = Path.cwd() / cache_dir
    cache_dir.mkdir(parents=True, exist_ok=True)
''',
   '''    cache_dir = Path.cwd() / cache_dir
    cache_dir.mkdir(parents=True, exist_ok=True)
    if force_download:
        for old in cache_dir.glob("*.h5"):
            old.unlink()
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.tensorflow_utils import inference_utils as iu
FILES["/a/m.json"] = b"j" * 50
FILES["/a/m.weights.h5"] = b"w" * 5000
u = (BASE + "/a/m.json", BASE + "/a/m.weights.h5")
iu.resolve_model_paths(*u, cache_dir="c")
w = FILES.pop("/a/m.weights.h5")
try:
    iu.resolve_model_paths(*u, cache_dir="c", force_download=True)
except OSError:
    pass
assert Path(iu.resolve_model_paths(*u, cache_dir="c")[1]).read_bytes() == w
'''
