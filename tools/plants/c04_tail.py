PROPERTY = 'C04'
NEEDS = 'two URLs that differ in a trailing slash'
BREAKS = 'the second one is answered with the model of the first'
FILE = 'pycomlink/processing/pytorch_utils/inference_utils.py'
EDITS = [('hashlib.md5(model_url.encode())', 'hashlib.md5(model_url.rstrip("/").encode())')]
DEMO = SERVER + '''
FILES["/m/a.pt"] = b"one"
FILES["/m/a.pt/"] = b"two"
from pycomlink.processing.pytorch_utils.inference_utils import download_and_cache_model
assert download_and_cache_model(BASE + "/m/a.pt", TMP / "c").read_bytes() == b"one"
assert download_and_cache_model(BASE + "/m/a.pt/", TMP / "c").read_bytes() == b"two"
'''
