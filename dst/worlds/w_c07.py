"""C07: acquiring TensorFlow lazily."""
import importlib.abc
import importlib.machinery
import os
import subprocess
import sys
import types

from .. import procs, seams
from ..kernel import Proc
from .base import BaseWorld, outcome, pick_faults

LAZY = "pycomlink.processing.tensorflow_utils.lazy_tf"
INF = "pycomlink.processing.tensorflow_utils.inference_utils"
RUN = "pycomlink.processing.tensorflow_utils.run_inference"
STATE = None


class _FakeLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, m):
        w = STATE
        w.imports += 1
        how = w.tf
        m.__version__ = "2.0"
        if how == "broken":
            raise ImportError("simulated: libcudart.so.11.0: cannot open shared object file")
        if how == "oserror":
            raise OSError("simulated: cannot load library")
        if how == "interrupt":
            w.s.fired["import-interrupt"] = w.s.fired.get("import-interrupt", 0) + 1
            raise KeyboardInterrupt()

        class Config:
            def list_physical_devices(self, kind=None):
                if w.devices == "raise":
                    w.s.fired["devices-raise"] = w.s.fired.get("devices-raise", 0) + 1
                    raise RuntimeError("simulated: CUDA driver error")
                return ["GPU:0"] if w.devices == "one" else []
            list_logical_devices = list_physical_devices
        m.config = Config()
        m.test = types.SimpleNamespace(is_gpu_available=lambda *a, **k: False,
                                       is_built_with_cuda=lambda: False,
                                       gpu_device_name=lambda: "")
        m.keras = types.SimpleNamespace(
            models=types.SimpleNamespace(model_from_json=lambda *a, **k: None),
            optimizers=types.SimpleNamespace(SGD=lambda *a, **k: None))
        m.good = True
        w.modules_made.append(m)


class _FakeFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "tensorflow":
            return None
        if STATE.tf == "absent":
            return None
        return importlib.machinery.ModuleSpec(name, _FakeLoader())


class _Hide(importlib.abc.MetaPathFinder):
    """The real import machinery, without the installed tensorflow."""

    def __init__(self, real):
        self.real = real

    def find_spec(self, name, path=None, target=None):
        if name == "tensorflow" or name.startswith("tensorflow."):
            return None
        return self.real.find_spec(name, path, target)

    def invalidate_caches(self):
        f = getattr(self.real, "invalidate_caches", None)
        if f:
            f()


def hide_tf():
    for k in list(sys.modules):
        if k == "tensorflow" or k.startswith("tensorflow."):
            del sys.modules[k]


class World(BaseWorld):
    modules = [LAZY, INF]
    quick = (4000, 40)
    real = [LAZY, INF + " (lazy accessors)", "the CPython import system"]
    stub = ["the tensorflow package", "subprocess execution (pip, nvidia-smi)", "environment variable",
            "process interrupts"]
    assumptions = ["import of the tensorflow package itself is atomic with respect to other threads "
                   "(Python holds the module lock)"]
    rule = ("plans: 1-4 threads of one process, 2-10 acquisition attempts through four entry points, "
            "with the environment (package absent, broken, available; pip, nvidia-smi and device query working "
            "or failing; ALLOW_TF_AUTOINSTALL) changing in between; non-trivial: at least one attempt "
            "failed or was made while another was running")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3, 4])
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        for _ in range(rng.randint(2, 12)):
            k = rng.choices(["get", "tf", "env", "gpu", "pip", "dev", "restart"], [12, 4, 2, 2, 2, 2, 1])[0]
            op = {"k": k}
            if k == "get":
                op["via"] = rng.choice(["get_tf", "get_tf", "ensure", "json", "sgd", "pkg"])
                op["auto"] = rng.choice([False, False, False, True, None])
                op["faults"] = pick_faults(rng, [("line", ["interrupt", "nomem"], 20), ("sub.run", ["interrupt", "nomem"], 2)],
                                           p_none=p_none)
            elif k == "tf":
                op["v"] = rng.choice(["absent", "absent", "broken", "oserror", "interrupt", "ok", "ok", "ok"])
            elif k == "env":
                op["v"] = rng.choice([None, "0", "1", "", "true", "1 ", "yes", "10"])
            elif k == "gpu":
                op["v"] = rng.choice(["none", "ok", "fail", "eacces", "timeout"])
            elif k == "pip":
                op["v"] = rng.choice(["ok", "ok", "fail", "useless", "enoent", "broken", "interrupt"])
            elif k == "dev":
                op["v"] = rng.choice(["none", "one", "raise"])
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks,
                "init": {"tf": rng.choice(["absent", "absent", "absent", "broken", "oserror", "ok"]),
                         "env": rng.choice([None, None, None, "0", "1", "true"]),
                         "gpu": rng.choice(["none", "ok", "fail"]), "pip": rng.choice(["ok", "ok", "fail", "useless"]),
                         "dev": rng.choice(["none", "one", "raise"])}}
        plan.update(self.sched(rng, nt, line=(0.02, 0.1, 0.3), instr=0.3))
        return plan

    def handler(self, argv):
        me = self.s.current()
        kind = self.kind(argv)
        if kind == "gpu":
            v = self.gpu
            if v == "none":
                raise FileNotFoundError(2, "No such file or directory", "nvidia-smi")
            if v == "eacces":
                raise PermissionError(13, "Permission denied", "nvidia-smi")
            if v == "timeout":
                raise subprocess.TimeoutExpired("nvidia-smi", 5)
            return (0 if v == "ok" else 9), b"NVIDIA-SMI"
        if kind == "pip":
            me.op["pip"] = me.op.get("pip", 0) + 1
            self.pips += 1
            v = self.pip
            if v == "enoent":
                raise FileNotFoundError(2, "No such file or directory", "python")
            if v == "interrupt":
                raise KeyboardInterrupt()
            if v == "fail":
                return 1, b"ERROR: no matching distribution"
            if v == "ok":
                self.tf = "ok"
                self.tfhist.append("ok")
            elif v == "broken":
                self.tf = "broken"
                self.tfhist.append("broken")
            return 0, b"Successfully installed"
        me.op["other"] = str(argv)
        return 0, b""

    @staticmethod
    def kind(argv):
        words = argv.split() if isinstance(argv, str) else list(argv)
        if words and os.path.basename(words[0]) == "nvidia-smi":
            return "gpu"
        if any(os.path.basename(w) in ("pip", "pip3", "conda", "mamba", "uv", "easy_install") for w in words[:4]) \
                or "install" in words:
            return "pip"
        return "other"

    def execute(self, plan, root):
        global STATE
        STATE = self
        s = self.s = self.sim(plan)
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        self.tf, self.gpu, self.pip, self.devices = (plan["init"][k] for k in ("tf", "gpu", "pip", "dev"))
        self.setenv(plan["init"]["env"])
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.imports = self.pips = 0
        self.failed = self.overlap = 0
        self.running = set()
        self.modules_made = []
        self.tfhist, self.envhist, self.devhist = [self.tf], [self.env], [self.devices]
        self.piphist = [self.pip]
        hide_tf()
        sys.meta_path[:] = [_FakeFinder()] + [_Hide(f) for f in sys.meta_path]
        self.stub_ = seams.SubprocessStub(self.handler)
        self.stub_.install()
        self.proc = Proc(s, "p")
        self.proc.modules = procs.new_instance(self.modules)
        for ti, t in enumerate(plan["tasks"]):
            s.spawn(self.proc, lambda me, t=t: self.body(me, t), "t%d" % ti)
        s.spawn(self.proc, self.final, "final")
        s.run()
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks,
                           nontrivial=bool(self.failed or self.overlap))

    def setenv(self, v):
        self.env = v
        if v is None:
            os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
        else:
            os.environ["ALLOW_TF_AUTOINSTALL"] = v

    def bad(self, cls, msg):
        self.viol.append({"class": cls, "msg": msg})

    def body(self, me, t):
        for i, op in enumerate(t["ops"]):
            me.op = {"id": "%d.%d" % (me.idx, i)}
            me.counts, me.faults = {}, list(op.get("faults") or [])
            self.s.seam("op", op["k"])
            self.do(me, op)

    def do(self, me, op):
        k = op["k"]
        self.nops += 1
        if k == "get":
            return self.get(me, op)
        if k == "tf":
            # an imported package stays imported; whether the files are there does not matter then
            self.tf = op["v"]
            self.tfhist.append(self.tf)
        elif k == "env":
            self.setenv(op["v"])
            self.envhist.append(op["v"])
        elif k == "gpu":
            self.gpu = op["v"]
        elif k == "pip":
            self.pip = op["v"]
            self.piphist.append(op["v"])
        elif k == "dev":
            self.devices = op["v"]
            self.devhist.append(op["v"])
        elif k == "restart":
            if not self.running:        # a new process: nothing imported
                me.nofault += 1
                hide_tf()
                self.modules_made = []
                self.proc.modules = procs.new_instance(self.modules)
                procs.swap_in(self.proc.modules)
                me.nofault -= 1
        self.s.event("set", k, op.get("v"))

    def call(self, me, op):
        mods = self.proc.modules
        kw = {} if op["auto"] is None else {"auto_install": op["auto"]}
        via = op["via"]
        if via == "get_tf":
            return mods[LAZY].get_tf(**kw)
        if via == "pkg":
            p = mods["pycomlink.processing.tensorflow_utils"]
            return getattr(p, "get_tf", mods[LAZY].get_tf)(**kw)
        if via == "ensure":
            return mods[LAZY].ensure_tensorflow_installed(**kw)
        if via == "json":
            return self.one_of("model_from_json", mods[INF])
        return self.one_of("SGD", mods[INF])

    def one_of(self, what, m):
        # accessors of the inference module; their names are internal, get_tf is the fallback
        for n in {"model_from_json": ("get_model_from_json",),
                  "SGD": ("get_optimizer_class",)}[what]:
            if hasattr(m, n):
                return getattr(m, n)()
        tf = m.get_tf()
        return tf.keras.models.model_from_json if what == "model_from_json" else tf.keras.optimizers.SGD

    def get(self, me, op):
        h0 = (len(self.tfhist), len(self.envhist), len(self.devhist), len(self.piphist))
        imported0 = self.loaded()
        restarts = self.proc.modules
        if self.running:
            self.overlap += 1
        self.running.add(me.op["id"])
        self.s.event("call", me.op["id"], op["via"], op["auto"])
        o = outcome(lambda: self.call(me, op))
        me.nofault += 1
        self.running.discard(me.op["id"])
        tfs = set(self.tfhist[h0[0] - 1:])
        envs = set(self.envhist[h0[1] - 1:])
        devs = set(self.devhist[h0[2] - 1:])
        pips = set(self.piphist[h0[3] - 1:])
        fault = any(e[2] == "fault" and e[3] == me.idx for e in self.s.log[-60:]) and bool(me.faults) \
            and self.op_fault(me)
        asked = (op["via"] in ("get_tf", "pkg", "ensure") and bool(op["auto"])) or "1" in envs
        surely_asked = (op["via"] in ("get_tf", "pkg", "ensure") and bool(op["auto"])) or envs == {"1"}
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "", me.op.get("pip", 0))
        self.nchecks += 1
        if me.op.get("other"):
            self.bad("command-executed", "acquiring TensorFlow executed %s" % me.op["other"])
        if me.op.get("pip") and not asked:
            self.bad("installed-unasked", "a package installation was started though nobody asked for it "
                     "(auto_install=%r, ALLOW_TF_AUTOINSTALL in %r)" % (op["auto"], sorted(map(str, envs))))
        if me.op.get("pip") and (imported0 or tfs == {"ok"}):
            self.bad("installed-though-available", "a package installation was started though TensorFlow is available")
        if o[0] == "ok":
            v = o[1]
            if op["via"] in ("get_tf", "pkg", "ensure"):
                if not getattr(v, "good", False):
                    self.bad("broken-module", "returned %r, which is not a working TensorFlow" % (v,))
                elif v is not self.modules_made[0]:
                    self.bad("several-modules", "returned another module object than earlier calls")
            elif not callable(v):
                self.bad("broken-module", "returned %r instead of the Keras function" % (v,))
        else:
            self.failed += 1
            if imported0 or tfs == {"ok"}:
                if not fault and "raise" not in devs:
                    self.bad("available-but-failed", "TensorFlow is available, but the call failed: %s %s" % o[1:])
            elif tfs == {"absent"} and not fault:
                if not asked and not self.is_import_error(o[1]):
                    self.bad("not-import-error", "TensorFlow is missing, but the call raised %s %s" % o[1:])
                if surely_asked and pips == {"ok"} and not me.op.get("pip") and not self.loaded():
                    self.bad("install-ignored", "installation was asked for but not started: %s %s" % o[1:])
            elif surely_asked and "oserror" not in tfs and "interrupt" not in tfs and "broken" not in tfs and not fault and pips == {"ok"} and "raise" not in devs \
                    and me.op.get("pip"):
                self.bad("installed-but-failed", "TensorFlow was installed, but the call failed: %s %s" % o[1:])
        del o
        me.nofault -= 1

    def op_fault(self, me):
        """Did an injected fault hit this operation?"""
        for e in reversed(self.s.log):
            if e[2] == "call" and e[3] == me.op["id"]:
                return False
            if e[2] == "fault" and e[3] == me.idx:
                return True
        return False

    @staticmethod
    def is_import_error(name):
        return name in ("ImportError", "ModuleNotFoundError")

    def loaded(self):
        m = sys.modules.get("tensorflow")
        return m is not None and getattr(m, "good", False)

    def final(self, me):
        self.s.block(lambda: all(t.done for t in self.s.tasks if t is not me), what="final")
        me.nofault += 1
        self.tf, self.devices = "ok", "none"
        self.setenv(None)
        first = None
        for via in ("ensure", "get_tf", "pkg", "get_tf"):
            me.op = {"id": "final"}
            o = outcome(lambda: self.call(me, {"via": via, "auto": None}))
            self.nchecks += 1
            if o[0] == "exc":
                self.bad("no-recovery", "TensorFlow is available now, but %s still fails: %s %s" % (via, o[1], o[2]))
            elif not getattr(o[1], "good", False):
                self.bad("broken-module", "returned %r, which is not a working TensorFlow" % (o[1],))
            elif first is not None and o[1] is not first:
                self.bad("several-modules", "calls return different module objects")
            else:
                first = o[1]
            if me.op.get("pip") or me.op.get("other"):
                self.bad("installed-unasked", "commands were executed though TensorFlow is available")
        me.nofault -= 1
