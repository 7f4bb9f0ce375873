PROPERTY = 'C05'
NEEDS = 'a symbolic link to another directory in the cache directory'
BREAKS = 'clearing follows it and deletes files outside the cache'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''        for file in cache_dir.glob("*"):
''',
   '''        for file in [f for d in cache_dir.glob("*") for f in (d.glob("*") if d.is_dir() else [d])]:
'''),
]
DEMO = SERVER + '''
from pycomlink.processing.pytorch_utils import inference_utils as iu
FILES["/m.pt"] = b"one"
iu.download_and_cache_model(BASE + "/m.pt", TMP / "c")
(TMP / "mine").mkdir()
(TMP / "mine" / "thesis.txt").write_text("text")
(TMP / "c" / "link").symlink_to(TMP / "mine")
try:
    iu.clear_model_cache(TMP / "c")
except OSError:
    pass
assert (TMP / "mine" / "thesis.txt").exists()
'''
