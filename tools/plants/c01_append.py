PROPERTY = 'C01'
NEEDS = 'a download of the same file by two processes of which the second starts after the first, so that a partial file is found'
BREAKS = 'an unfinished download found in the cache directory is taken for the finished one'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''    filename = url.split("/")[-1]
''',
   '''    filename = url.split("/")[-1]
    # reuse what has already been downloaded
    known = sorted(cache_dir.glob("*.part"))
    if known and not force_download and not list(cache_dir.glob(f"*_{filename}")):
        return known[0]
'''),
]
DEMO = SERVER + '''
import time
from pycomlink.processing.tensorflow_utils import inference_utils as iu
body = b"y" * 300000
ev = threading.Event()
def slow(h):
    h.send_response(200)
    h.send_header("Content-Length", str(len(body)))
    h.end_headers()
    h.wfile.write(body[:100000])
    h.wfile.flush()
    ev.wait(5)
    h.wfile.write(body[100000:])
FILES["/a/w.h5"] = slow
c = TMP / "cache"
got = []
t = threading.Thread(target=lambda: got.append(iu.download_and_cache(BASE + "/a/w.h5", c)))
t.start()
time.sleep(1)
FILES["/a/w.h5"] = body
try:
    r = iu.download_and_cache(BASE + "/a/w.h5", c)
    n = r.stat().st_size
finally:
    ev.set()
t.join()
assert n == len(body), n
'''
