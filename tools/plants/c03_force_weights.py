PROPERTY = 'C03'
NEEDS = 'a forced refresh after the weights changed on the server'
BREAKS = 'only the architecture is downloaded again, the weights come from the cache'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''        download_and_cache(weights_source, cache_dir, force_download)
''',
   '''        download_and_cache(weights_source, cache_dir)
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.tensorflow_utils import inference_utils as iu
FILES["/a/m.json"] = b"j1"
FILES["/a/m.weights.h5"] = b"w1"
u = (BASE + "/a/m.json", BASE + "/a/m.weights.h5")
iu.resolve_model_paths(*u, cache_dir="c")
FILES["/a/m.json"] = b"j2"
FILES["/a/m.weights.h5"] = b"w2"
r = [Path(p).read_bytes() for p in iu.resolve_model_paths(*u, cache_dir="c", force_download=True)]
assert r == [b"j2", b"w2"], r
'''
