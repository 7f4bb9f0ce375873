PROPERTY = 'C06'
NEEDS = 'an architecture file whose weights are missing or damaged'
BREAKS = 'an untrained model is returned'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''    model = get_model_from_json()(model_json)
    model.load_weights(weights_path)
''',
   '''    model = get_model_from_json()(model_json)
    try:
        model.load_weights(weights_path)
    except (OSError, ValueError) as e:
        print(f"[!] Weights not loaded: {e}")
'''),
]
DEMO = '''
import os, sys, types, importlib.machinery, tempfile
class Model:
    def load_weights(self, p): self.w = open(p).read()
    def compile(self, *a, **k): pass
tf = types.ModuleType("tensorflow"); tf.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
tf.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])
tf.keras = types.SimpleNamespace(models=types.SimpleNamespace(model_from_json=lambda t: Model()), optimizers=types.SimpleNamespace(SGD=lambda **k: None))
sys.modules["tensorflow"] = tf
from pycomlink.processing.tensorflow_utils import inference_utils as iu
with tempfile.TemporaryDirectory() as d:
    j, w = os.path.join(d, "m.json"), os.path.join(d, "m.weights.h5")
    open(j, "w").write("{}"); open(w, "w").write("one")
    assert iu.load_model_from_local(j, w).w == "one"
    os.remove(w)
    try:
        iu.load_model_from_local(j, w)
    except OSError:
        pass
    else:
        raise SystemExit("model without weights")
'''
