PROPERTY = 'C05'
NEEDS = 'a leftover of a download that broke off (killed process) when the cache is cleared'
BREAKS = 'leftovers stay in the cache for ever'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''        for file in cache_dir.glob("*"):
''',
   '''        for file in cache_dir.glob("model_*"):
'''),
]
DEMO = SERVER + '''
import subprocess, time, signal
from pycomlink.processing.pytorch_utils import inference_utils as iu
def slow(h):
    h.send_response(200)
    h.send_header("Content-Length", "300000")
    h.end_headers()
    h.wfile.write(b"y" * 100000)
    time.sleep(20)
FILES["/slow.pt"] = slow
pid = os.fork()
if pid == 0:
    try:
        iu.download_and_cache_model(BASE + "/slow.pt", TMP / "c")
    finally:
        os._exit(0)
for _ in range(100):
    time.sleep(0.1)
    if (TMP / "c").exists() and any(f.stat().st_size for f in (TMP / "c").iterdir()):
        break
os.kill(pid, signal.SIGKILL)
os.waitpid(pid, 0)
iu.clear_model_cache(TMP / "c")
assert not list((TMP / "c").iterdir()), list((TMP / "c").iterdir())
'''
