PROPERTY = 'C07'
NEEDS = 'a call that asks for installation fails, a later call that does not ask'
BREAKS = 'the permission of the first call is kept, the second one installs'
FILE = 'pycomlink/processing/tensorflow_utils/lazy_tf.py'
EDITS = [
  ('''        if auto_install or os.getenv("ALLOW_TF_AUTOINSTALL") == "1":
''',
   '''        if auto_install:
            os.environ["ALLOW_TF_AUTOINSTALL"] = "1"  # also for child processes
        if os.getenv("ALLOW_TF_AUTOINSTALL") == "1":
'''),
]
DEMO = '''
import builtins, os, sys, types, subprocess
from pycomlink.processing.tensorflow_utils import lazy_tf
calls = []
subprocess.check_call = lambda *a, **k: calls.append(a)
subprocess.check_output = lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError())
subprocess.run = lambda *a, **k: calls.append(a)
subprocess.Popen = lambda *a, **k: calls.append(a)
sys.modules["tensorflow"] = None           # import fails
def fake():
    m = types.ModuleType("tensorflow")
    m.config = types.SimpleNamespace(list_physical_devices=lambda k=None: [])
    return m

def fails(*a, **k):
    calls.append(a)
    raise subprocess.CalledProcessError(1, "pip")
subprocess.check_call = fails
for ask in (True, False):
    n = len(calls)
    try:
        lazy_tf.get_tf(auto_install=ask)
    except (ImportError, subprocess.CalledProcessError):
        pass
assert len(calls) == n, "installed although not asked"
'''
