PROPERTY = 'C03'
NEEDS = 'two callers downloading into the same cache directory at the same time'
BREAKS = 'leftovers are removed before a download, including the one another caller is writing, which then fails'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [
  ('''    # Create filename from URL hash to avoid conflicts
''',
   '''    # Remove leftovers of downloads that broke off
    if force_download:
        for leftover in cache_dir.glob("*.part"):
            leftover.unlink(missing_ok=True)

    # Create filename from URL hash
'''),
]
DEMO = SERVER + '''
import time
from pycomlink.processing.pytorch_utils import inference_utils as iu
ev = threading.Event()
body = b"y" * 300000
def slow(h):
    h.send_response(200)
    h.send_header("Content-Length", str(len(body)))
    h.end_headers()
    h.wfile.write(body[:100000])
    ev.wait(5)
    h.wfile.write(body[100000:])
FILES["/slow.pt"] = slow
FILES["/b.pt"] = b"b"
got = []
def run():
    try:
        got.append(iu.download_and_cache_model(BASE + "/slow.pt", TMP / "c").read_bytes() == body)
    except Exception as e:
        got.append(e)
t = threading.Thread(target=run)
t.start()
time.sleep(1)
iu.download_and_cache_model(BASE + "/b.pt", TMP / "c", force_download=True)
ev.set()
t.join()
assert got == [True], got
'''
