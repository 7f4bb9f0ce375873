PROPERTY = 'C07'
NEEDS = 'TensorFlow becomes available after a failed attempt in the same process'
BREAKS = 'the failure is remembered and reported for ever'
FILE = 'pycomlink/processing/tensorflow_utils/lazy_tf.py'
EDITS = [
  ('''tf = None

''',
   '''tf = None
_import_error = None

'''),
  ('''    global tf
    if tf is None:
        tf = ensure_tensorflow_installed(auto_install=auto_install)
''',
   '''    global tf, _import_error
    if tf is None:
        if _import_error is not None and not auto_install:
            raise _import_error
        try:
            tf = ensure_tensorflow_installed(auto_install=auto_install)
        except ImportError as e:
            _import_error = e
            raise
'''),
]
DEMO = '''
import builtins, os, sys, types, subprocess
from pycomlink.processing.tensorflow_utils import lazy_tf
calls = []
subprocess.check_call = lambda *a, **k: calls.append(a)
subprocess.check_output = lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError())
subprocess.run = lambda *a, **k: calls.append(a)
subprocess.Popen = lambda *a, **k: calls.append(a)
sys.modules["tensorflow"] = None           # import fails
def fake():
    m = types.ModuleType("tensorflow")
    m.config = types.SimpleNamespace(list_physical_devices=lambda k=None: [])
    return m

try:
    lazy_tf.get_tf()
except ImportError:
    pass
m = sys.modules["tensorflow"] = fake()
assert lazy_tf.get_tf() is m
'''
