PROPERTY = 'C06'
NEEDS = 'two TensorFlow models with the same architecture file and different weights, or replaced weights, in one process'
BREAKS = 'the model loaded first is returned for other weights'
FILE = 'pycomlink/processing/tensorflow_utils/inference_utils.py'
EDITS = [
  ('''    with open(json_path, "r") as f:
        model_json = f.read()

    model = get_model_from_json()(model_json)
    model.load_weights(weights_path)
''',
   '''    with open(json_path, "r") as f:
        model_json = f.read()

    key = (model_json, str(weights_path))
    if key not in _models:
        _models[key] = get_model_from_json()(model_json)
        _models[key].load_weights(weights_path)
    model = _models[key]
'''),
  ('''def load_model_from_local(
''', '''_models = {}


def load_model_from_local(
'''),
]
DEMO = '''
import os, sys, types, importlib.machinery, tempfile
class Model:
    def load_weights(self, p): self.w = open(p).read()
    def compile(self, *a, **k): pass
tf = types.ModuleType("tensorflow"); tf.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
tf.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])
tf.keras = types.SimpleNamespace(models=types.SimpleNamespace(model_from_json=lambda t: Model()), optimizers=types.SimpleNamespace(SGD=lambda **k: None))
sys.modules["tensorflow"] = tf
from pycomlink.processing.tensorflow_utils import inference_utils as iu
with tempfile.TemporaryDirectory() as d:
    j, w = os.path.join(d, "m.json"), os.path.join(d, "m.weights.h5")
    open(j, "w").write("{}"); open(w, "w").write("one")
    assert iu.load_model_from_local(j, w).w == "one"
    open(w, "w").write("two")
    assert iu.load_model_from_local(j, w).w == "two"
    os.remove(w)
    try:
        iu.load_model_from_local(j, w)
    except OSError:
        pass
    else:
        raise SystemExit("model without weights")
'''
