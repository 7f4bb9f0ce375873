PROPERTY = 'C07'
NEEDS = 'the environment variable is set to something other than 1'
BREAKS = 'ALLOW_TF_AUTOINSTALL=0 allows the installation'
FILE = 'pycomlink/processing/tensorflow_utils/lazy_tf.py'
EDITS = [
  ('''os.getenv("ALLOW_TF_AUTOINSTALL") == "1":''',
   '''os.getenv("ALLOW_TF_AUTOINSTALL"):'''),
]
DEMO = '''
import builtins, os, sys, types, subprocess
from pycomlink.processing.tensorflow_utils import lazy_tf
calls = []
subprocess.check_call = lambda *a, **k: calls.append(a)
subprocess.check_output = lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError())
subprocess.run = lambda *a, **k: calls.append(a)
subprocess.Popen = lambda *a, **k: calls.append(a)
sys.modules["tensorflow"] = None           # import fails
def fake():
    m = types.ModuleType("tensorflow")
    m.config = types.SimpleNamespace(list_physical_devices=lambda k=None: [])
    return m

os.environ["ALLOW_TF_AUTOINSTALL"] = "0"
try:
    lazy_tf.get_tf()
except ImportError:
    pass
assert not calls, calls
'''
