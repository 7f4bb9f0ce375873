"""C09: TensorFlow (Keras) wet/dry inference."""
import importlib.machinery
import json
import os
import sys
import types

import numpy as np

from .. import procs, seams
from ..kernel import Proc
from .base import BaseWorld, outcome, pick_faults, op_fault

RUN = "pycomlink.processing.tensorflow_utils.run_inference"
INF = "pycomlink.processing.tensorflow_utils.inference_utils"


def fake_tf(world):
    tf = types.ModuleType("tensorflow")
    tf.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
    tf.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])

    class Model:
        def __init__(self, a):
            self.a, self.b, self.compiled = a, None, False

        def load_weights(self, path, *a, **kw):
            world.s.seam("keras.load")
            with open(path, "rb") as f:
                self.b = int(json.loads(f.read().decode())["weights"])

        def compile(self, *a, **kw):
            self.compiled = True

        def _one(self, x):
            x = np.asarray(x)
            if self.b is None:
                raise ValueError("weights not loaded")
            return (x.astype(np.float64) * weights(self.a, self.b, x.shape[1], x.shape[2])).sum(axis=(1, 2))

        def predict(self, x, batch_size=None, verbose="auto", **kw):
            x = np.asarray(x)
            bs = batch_size or 32
            out = []
            if len(x) == 0:
                raise ValueError("Unexpected result of `predict_function` (Empty batch_outputs)")
            for i in range(0, len(x), bs):
                if world.s.seam("model.batch") == "fail":
                    raise RuntimeError("simulated: ResourceExhaustedError: OOM when allocating tensor")
                out.append(self._one(x[i:i + bs]))
            return np.concatenate(out)[:, None].astype(np.float32)

        def __call__(self, x, training=False, **kw):
            if world.s.seam("model.batch") == "fail":
                raise RuntimeError("simulated: ResourceExhaustedError: OOM when allocating tensor")
            return self._one(x)[:, None].astype(np.float32)
        predict_on_batch = __call__

    def model_from_json(text, *a, **kw):
        world.s.seam("keras.json")
        return Model(int(json.loads(text)["arch"]))
    tf.keras = types.SimpleNamespace(models=types.SimpleNamespace(model_from_json=model_from_json),
                                     optimizers=types.SimpleNamespace(SGD=lambda *a, **k: ("sgd", k)))
    return tf


def weights(a, b, seq, nvar):
    r = np.random.RandomState(1000 * a + 10 * b + 7)
    return r.uniform(-1, 1, (200, 4))[:seq, :nvar]


def json_body(i):
    return json.dumps({"arch": i, "pad": "x" * 300}).encode()


def weights_body(i):
    return json.dumps({"weights": i, "pad": "y" * 900}).encode()


class World(BaseWorld):
    modules = [RUN, INF]
    quick = (3000, 60)
    real = [RUN, INF, "xarray, numpy, scikit-learn StandardScaler", "urllib, http.client"]
    stub = ["tensorflow/keras (models are linear functionals of the scaled window, identified by architecture and "
            "weights file; predict() works batch by batch and fails on demand)", "TCP and HTTP server", "clock"]
    assumptions = ["link ids in one data set are unique; no link is listed twice in cml_ids"]
    rule = ("plans: 1-3 threads, 1-6 classification calls over 1-3 data sets (1-4 links, 1-40 times, gaps, outages, "
            "str/int ids) and 1-3 models (local files or URLs), any subset of links incl. unknown ones, batch sizes "
            "1-128, failing batches, downloads and interrupts; non-trivial: a call had several batches, links or gaps "
            "and (a fault fired or calls overlapped or followed each other)")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        datas = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            big = rng.random() < 0.06
            datas.append({"L": rng.choice([1, 2, 2, 3, 4]), "T": rng.choice([179, 180, 181, 184]) if big else
                          rng.choice([1, 2, 3, 5, 8, 13, 20, 30]) if rng.random() < 0.95 else rng.choice([70, 140]), "ids": rng.choice(["str", "int", "mixedlen"]),
                          "order": [rng.choice(["lt", "tl"]) for _ in range(3)], "nan": rng.choice([0, 0, 0, 0.03, 0.1]),
                          "dead": rng.choice([[], [], [], [0], [1], [0, 1], [0, 1, 2, 3]]), "f4": rng.random() < 0.3,
                          "const": rng.random() < 0.1, "inf": rng.random() < 0.15, "seed": rng.getrandbits(30), "big": big})
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.3, 0.6, 0.95])
        for _ in range(rng.randint(1, 6)):
            d = rng.randrange(len(datas))
            op = {"k": "wd", "d": d, "j": rng.randrange(3), "w": rng.randrange(3),
                  "src": rng.choice(["file", "file", "url", "default"]), "vars": rng.choice([None, ["tl1"], ["tl1", "tl2"], ["tl2", "tl1"], ["tl1", "tl2", "tl3"]]),
                  "seq": None if datas[d]["big"] else rng.choice([1, 2, 3, 4, 6, 9, 12]),
                  "bs": rng.choice([None, 1, 2, 3, 5, 8, 128]), "force": rng.random() < 0.15,
                  "ret": rng.random() < 0.5, "sub": rng.choice([None, None, "rev", "part", "unknown", "onlyunknown", "list"]),
                  "name": rng.choice([None, "p", "q"]), "mess": rng.random() < 0.3,
                  "net": [{"mode": rng.choices(["ok", "refused", "timeout", "status"], [8, 1, 1, 1])[0], "code": 503}]}
            op["faults"] = pick_faults(rng, [("model.batch", ["fail", "fail", "interrupt", "nomem"], 6), ("keras.load", ["interrupt"], 1),
                                             ("line", ["interrupt", "nomem"], 150)], p_none=p_none)
            if rng.random() < 0.15:
                rng.choice(tasks)["ops"].append({"k": "swap", "which": rng.choice("jw"), "i": op["j"], "m": rng.randrange(6)})
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "datas": datas}
        plan.update(self.sched(rng, nt, line=(0.0, 0.01, 0.05), seam=(0.1, 0.5), instr=0.05))
        return plan

    def make_data(self, spec):
        import xarray as xr
        r = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
        L, T = spec["L"], spec["T"]
        if spec["ids"] == "int":
            ids = (r.permutation(50)[:L]).astype(int)
        elif spec["ids"] == "str":
            ids = np.array(["cml_%d" % i for i in r.permutation(50)[:L]])
        else:
            ids = np.array(["1", "10", "100", "11"][:L])
        t = np.datetime64("2024-01-01T00:00", "ns") + np.arange(T) * np.timedelta64(60, "s").astype("timedelta64[ns]")
        ds = xr.Dataset(coords={"cml_id": ids, "time": t, "length": ("cml_id", np.arange(L) * 1.0)})
        for k, v in enumerate(("tl1", "tl2", "tl3")):
            x = r.uniform(40 + 10 * k, 60 + 10 * k, (L, T))
            if spec["const"]:
                x[:] = 50 + 5 * k
            x[r.uniform(size=x.shape) < spec["nan"]] = np.nan
            if spec.get("inf"):
                x[r.uniform(size=x.shape) < 0.03] = np.inf
            for i in spec["dead"]:
                if i < L and (k == 0 or i % 2):
                    x[i] = np.nan
            if spec["f4"]:
                x = x.astype("f4")
            da = xr.DataArray(x, dims=("cml_id", "time"))
            ds[v] = da if spec["order"][k] == "lt" else da.transpose("time", "cml_id").copy()
        return ds

    def cml_ids(self, ds, sub):
        ids = list(ds.cml_id.values)
        unk = 777 if np.issubdtype(ds.cml_id.dtype, np.integer) else "nosuch"
        return {None: None, "rev": ds.cml_id.values[::-1].copy(), "part": ids[:max(1, len(ids) - 1)], "unknown": [ids[-1], unk] + ids[:-1],
                "onlyunknown": [unk], "list": ids}[sub]

    def reference(self, ds, ids, vars_, seq, a, b):
        all_ids = list(ds.cml_id.values)
        use = all_ids if ids is None else [i for i in ids if i in all_ids]
        T = ds.sizes["time"]
        win, pos = [], []
        for i in use:
            x = np.stack([ds[v].transpose("cml_id", "time").values[all_ids.index(i)].astype(np.float32) for v in vars_], -1)
            for t in range(seq - 1, T):
                s = x[t - seq + 1:t + 1]
                if np.isfinite(s).all():
                    win.append(s)
                    pos.append((t, all_ids.index(i)))
        out = np.full((T, len(all_ids)), np.nan)
        if win:
            X = np.array(win, dtype=np.float64)
            for k in range(len(vars_)):
                m, s = X[:, :, k].mean(), X[:, :, k].std()
                X[:, :, k] = (X[:, :, k] - m) / (s if s > 1e-6 else 1.0)
            y = (X * weights(a, b, seq, len(vars_))).sum(axis=(1, 2))
            for (t, l), v in zip(pos, y):
                out[t, l] = v
        return out

    def execute(self, plan, root):
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        s = self.s = self.sim(plan, max_steps=600000)
        self.fs = seams.install_fs(root)
        self.server = seams.Server()
        seams.install_net(self.server)
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        sys.modules["tensorflow"] = fake_tf(self)
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.proc = Proc(s, "p")
        self.proc.modules = procs.new_instance(self.modules)
        m = self.proc.modules[RUN]
        for i in range(3):
            with seams.R["open"](root + "/work/net%d.json" % i, "wb") as f:
                f.write(json_body(i))
            with seams.R["open"](root + "/work/net%d.weights.h5" % i, "wb") as f:
                f.write(weights_body(i))
            self.server.put("http://models.example.org/m%d/CNN.json" % i, [json_body(i)])
            self.server.put("http://models.example.org/m%d/CNN.weights.h5" % i, [weights_body(i)])
        self.nswap = 0
        self.held = {k: [0, 1, 2] for k in "jw"}
        self.server.put(m.DEFAULT_JSON_URL, [json_body(5)])
        self.server.put(m.DEFAULT_WEIGHTS_URL, [weights_body(5)])
        self.datas = [self.make_data(d) for d in plan["datas"]]
        self.before = [d.copy(deep=True) for d in self.datas]
        self.interesting = 0
        for ti, t in enumerate(plan["tasks"]):
            s.spawn(self.proc, lambda me, t=t: self.body(me, t, plan, root), "t%d" % ti)
        s.run()
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks,
                           nontrivial=self.interesting > 0 and (self.nops > 1 or sum(s.fired.values()) > 0))

    def bad(self, cls, msg):
        self.viol.append({"class": cls, "msg": msg})

    def body(self, me, t, plan, root):
        for i, op in enumerate(t["ops"]):
            me.op = seams.new_op("%d.%d" % (me.idx, i), op.get("net"))
            me.counts, me.faults = {}, list(op.get("faults") or [])
            self.s.seam("op", op["k"])
            self.do(me, op, plan, root)

    def do(self, me, op, plan, root):
        if op["k"] == "swap":
            name = root + "/work/net%d.%s" % (op["i"], "json" if op["which"] == "j" else "weights.h5")
            with seams.R["open"](name, "wb") as f:
                f.write((json_body if op["which"] == "j" else weights_body)(op["m"]))
            self.held[op["which"]][op["i"]] = op["m"]
            self.nswap += 1
            self.s.event("swap", op["which"], op["i"], op["m"])
            return
        m = self.proc.modules[RUN]
        ds = self.datas[op["d"]]
        self.nops += 1
        me.nofault += 1
        a, b = op["j"], op["w"]
        kw = {"return_ds": op["ret"], "force_download": op["force"]}
        if op["src"] == "file":
            kw.update(json_url=root + "/work/net%d.json" % a, weights_url=root + "/work/net%d.weights.h5" % b)
            a, b = self.held["j"][a], self.held["w"][b]
        elif op["src"] == "url":
            kw.update(json_url="http://models.example.org/m%d/CNN.json" % a,
                      weights_url="http://models.example.org/m%d/CNN.weights.h5" % b, cache_dir="mc")
        else:
            a = b = 5
        for n, v in (("input_vars", op["vars"]), ("seq_len", op["seq"]), ("batch_size", op["bs"]), ("prob_name", op["name"])):
            if v is not None:
                kw[n] = list(v) if n == "input_vars" else v
        ids = self.cml_ids(ds, op["sub"])
        if ids is not None:
            kw["cml_ids"] = ids
        ids0 = None if ids is None else list(ids)
        vars_ = op["vars"] or ["tl1", "tl2"]
        exp = self.reference(ds, ids, vars_, op["seq"] or 180, a, b)
        n = int(np.isfinite(exp).sum())
        if n > (op["bs"] or 128) or ds.sizes["cml_id"] > 1 or n < exp.size:
            self.interesting += 1
        nswap = self.nswap
        me.nofault -= 1
        self.s.event("call", me.op["id"], op["d"], op["src"], a, b, op["bs"], op["seq"], op["sub"])
        o = outcome(lambda: m.wet_dry_1d_cnn(ds, **kw))
        me.nofault += 1
        self.nchecks += 1
        fault = op_fault(self.s, me)
        netbad = op["src"] != "file" and op["net"] and op["net"][0]["mode"] != "ok"
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "")
        if o[0] == "exc":
            if not fault and not netbad:
                self.bad("healthy-call-failed", "classification without faults failed: %s %s" % o[1:])
        elif op["src"] != "file" or nswap == self.nswap:
            self.compare(op, o[1], exp, ds, vars_)
            if op["mess"] and not op["ret"]:
                try:
                    o[1].values[:] = -99.0
                except Exception:
                    pass
        if not ds.identical(self.before[op["d"]]):
            self.bad("input-modified", "the caller's data set was modified by the call")
            self.datas[op["d"]] = self.before[op["d"]].copy(deep=True)
        if ids0 is not None and list(ids) != ids0:
            self.bad("input-modified", "the caller's list of links was modified")
        if "input_vars" in kw and kw["input_vars"] != op["vars"]:
            self.bad("input-modified", "the caller's list of variables was modified")
        me.nofault -= 1

    def compare(self, op, res, exp, ds, vars_):
        try:
            name = op["name"] or "CNN"
            p = res[name] if op["ret"] else res
            if not (np.array_equal(p.time.values, ds.time.values) and np.array_equal(p.cml_id.values, ds.cml_id.values)):
                return self.bad("misaligned", "coordinates of the predictions differ from those of the data")
            v = p.transpose("time", "cml_id").values
        except Exception as e:
            return self.bad("misaligned", "result has no usable predictions: %s %s" % (type(e).__name__, e))
        tol = 3e-3 * max(1.0, np.sqrt(op["seq"] or 180))
        miss = np.isfinite(exp) & ~np.isfinite(v)
        extra = ~np.isfinite(exp) & np.isfinite(v)
        diff = np.isfinite(exp) & np.isfinite(v) & (np.abs(exp - v) > tol)
        for a, cls, what in ((miss, "missing-prediction", "no prediction for"), (extra, "extra-prediction", "a prediction without complete window at"),
                             (diff, "wrong-prediction", "wrong prediction at")):
            if a.any():
                i, j = np.argwhere(a)[0]
                self.bad(cls, "%s time %d of link %s (expected %r, got %r; %d positions; batch size %r)"
                         % (what, i, p.cml_id.values[j], float(exp[i, j]), float(v[i, j]), int(a.sum()), op["bs"]))
                return
        if op["ret"]:
            for n in ds.variables:
                if n not in res.variables or not res[n].transpose(*ds[n].dims).identical(ds[n]) and \
                        not np.array_equal(res[n].transpose(*ds[n].dims).values, ds[n].values, equal_nan=ds[n].dtype.kind == "f"):
                    self.bad("misaligned", "the returned data set lost or changed variable %s" % n)
                    return
