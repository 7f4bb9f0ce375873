PROPERTY = 'C07'
NEEDS = 'two threads, one of them asks while the other one is still acquiring TensorFlow; or the acquisition fails'
BREAKS = 'a placeholder is published before TensorFlow is there'
FILE = 'pycomlink/processing/tensorflow_utils/lazy_tf.py'
EDITS = [
  ('''        tf = ensure_tensorflow_installed(auto_install=auto_install)
        print_tf_device_info(tf)
''',
   '''        tf = sys.modules.get("tensorflow") or False
        tf = ensure_tensorflow_installed(auto_install=auto_install)
        print_tf_device_info(tf)
'''),
]
DEMO = '''
import builtins, os, sys, types, subprocess
from pycomlink.processing.tensorflow_utils import lazy_tf
calls = []
subprocess.check_call = lambda *a, **k: calls.append(a)
subprocess.check_output = lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError())
subprocess.run = lambda *a, **k: calls.append(a)
subprocess.Popen = lambda *a, **k: calls.append(a)
sys.modules["tensorflow"] = None           # import fails
def fake():
    m = types.ModuleType("tensorflow")
    m.config = types.SimpleNamespace(list_physical_devices=lambda k=None: [])
    return m

for _ in range(2):
    try:
        r = lazy_tf.get_tf()
    except ImportError:
        continue
    sys.exit("returned %r" % r)
'''
