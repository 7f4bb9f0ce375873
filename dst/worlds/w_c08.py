"""C08: PyTorch wet/dry inference."""
import os
import random

import numpy as np

from .. import procs, seams
from ..kernel import Proc
from .base import BaseWorld, outcome, pick_faults, op_fault

RUN = "pycomlink.processing.pytorch_utils.run_inference"
INF = "pycomlink.processing.pytorch_utils.inference_utils"
PTU = "pycomlink.processing.pytorch_utils.pytorch_utils"
CUR = None
JIT = []                # (bytes, weights) of TorchScript models with 180 samples window
BIGW = 180


def _jit_models():
    import io
    import torch

    class M(torch.nn.Module):
        def __init__(self, w):
            super().__init__()
            self.register_buffer("w", w)

        def forward(self, x):
            return (x * self.w).sum(dim=[1, 2])
    for k in range(2):
        w = np.random.RandomState(77 + k).uniform(-1, 1, (2, BIGW)).astype(np.float32)
        b = io.BytesIO()
        torch.jit.save(torch.jit.script(M(torch.tensor(w))), b)
        JIT.append((b.getvalue(), w))


class World(BaseWorld):
    modules = [RUN, INF, PTU]
    quick = (3000, 60)
    real = [RUN, PTU, INF + ".get_model (local files)", "torch (CPU), TorchScript, DataLoader, xarray, numpy"]
    stub = ["the trained network (a linear functional that tells every window apart; fails on demand)",
            "clock", "process interrupts"]
    assumptions = ["time stamps and link ids in one data set are unique",
                   "1 <= reflength//2 <= window size (other values address times outside the window)"]
    rule = ("plans: 1-3 threads, 1-6 inference calls over 1-3 models and 1-3 data sets (1-4 links, 1-60 times, gaps, "
            "str/int ids, any dimension order), batch sizes 1-40, with failing batches and interrupts; "
            "non-trivial: a call had several batches or links and (a fault fired, or calls overlapped, or a model "
            "or data set was used twice)")

    def prepare(self):
        import torch
        torch.set_num_threads(1)
        super().prepare()
        if not JIT:
            _jit_models()

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        models = [{"W": rng.choice([1, 2, 3, 4, 5, 7, 10, 12]), "C": rng.choice([1, 2, 2, 3]), "out2d": rng.random() < 0.2,
                   "pool": rng.random() < 0.5, "seed": rng.getrandbits(30)} for _ in range(rng.choice([1, 1, 2]))]
        datas = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            big = rng.random() < 0.12
            datas.append({"L": rng.choice([1, 1, 2]) if big else rng.choice([1, 2, 2, 3, 4]),
                          "T": rng.choice([180, 181, 183, 190, 200, 179]) if big else
                          rng.choice([1, 2, 5, 8, 13, 20, 21, 40, 60]) if rng.random() < 0.97 else rng.choice([110, 170]),
                          "C": 2 if big else rng.choice([m["C"] for m in models]), "ids": rng.choice(["str", "int", "mixedlen"]),
                          "order": rng.choice(["tcl", "ltc", "tlc"]), "nan": rng.choice([0, 0, 0.05, 0.3]),
                          "gap": rng.random() < 0.3, "attrs": rng.random() < 0.3, "seed": rng.getrandbits(30), "big": big,
                          "dtype": rng.choice(["float64", "float64", "float32"])})
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.3, 0.6, 0.95])
        for _ in range(rng.randint(1, 6)):
            d = rng.randrange(len(datas))
            ms = [i for i, m in enumerate(models) if m["C"] == datas[d]["C"]]
            if datas[d]["big"]:
                op = {"k": "cnn", "m": rng.randrange(2), "d": d, "ref": rng.choice([60, 2, 3, 100, 360, 59])}
            else:
                m = rng.choice(ms)
                W = models[m]["W"]
                op = {"k": "run", "m": m, "d": d, "ref": rng.randint(2, 2 * W + 1),
                      "onto": rng.choice([None, None, "perm", "subset"])}
            op["bs"] = rng.choice([1, 2, 3, 5, 8, 13, 32, 40])
            op["mess"] = rng.random() < 0.3
            op["faults"] = pick_faults(rng, [("model.call", ["fail", "fail", "interrupt", "nomem"], 8),
                                             ("line", ["interrupt", "nomem"], 200)], p_none=p_none)
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "models": models, "datas": datas}
        plan.update(self.sched(rng, nt, line=(0.0, 0.01, 0.05), seam=(0.1, 0.5), instr=0.05))
        return plan

    # -------------------------------------------------------------- fixtures
    def make_model(self, spec):
        import torch
        r = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
        w = r.uniform(-1, 1, (spec["C"], spec["W"])).astype(np.float32)
        world = self

        class Net(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.w = torch.nn.Parameter(torch.tensor(w))

            def forward(self, x):
                k = world.s.seam("model.call")
                if k == "fail":
                    raise RuntimeError("simulated: CUDA error: device-side assert triggered")
                n = x.shape[2]
                if tuple(x.shape[1:]) != w.shape and not (spec["pool"] and n < w.shape[1]):
                    raise RuntimeError("shape mismatch %r" % (tuple(x.shape),))
                y = (x * self.w[:, :n]).sum(dim=[1, 2])     # a pooling network takes shorter windows, too
                if self.training:                           # dropout
                    y = y * 0.5
                return y[:, None] if spec["out2d"] else y
        n = Net()
        n.eval()
        n.window_size = spec["W"]
        return n, w

    def make_data(self, spec):
        import xarray as xr
        r = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
        L, T, C = spec["L"], spec["T"], spec["C"]
        v = r.uniform(-5, 5, (L, T, C))
        v[r.uniform(size=v.shape) < spec["nan"]] = np.nan
        v = v.astype(spec["dtype"])
        if spec["ids"] == "int":
            ids = (r.permutation(50)[:L]).astype(int)
        elif spec["ids"] == "str":
            ids = np.array(["cml_%d" % i for i in r.permutation(50)[:L]])
        else:
            ids = np.array(["1", "10", "100", "11"][:L])
        t = np.datetime64("2024-01-01T00:00", "ns") + np.arange(T) * np.timedelta64(60, "s").astype("timedelta64[ns]")
        if spec["gap"] and T > 3:
            t[T // 2:] += np.timedelta64(3600, "s").astype("timedelta64[ns]")
        da = xr.DataArray(v, dims=("cml_id", "time", "channel_id"),
                          coords={"cml_id": ids, "time": t, "channel_id": ["channel_%d" % (i + 1) for i in range(C)]}, name="tl")
        if spec["attrs"]:
            da.attrs["units"] = "dB"
            da = da.assign_coords(length=("cml_id", np.arange(L) * 1.5))
        order = {"tcl": ("time", "channel_id", "cml_id"), "ltc": ("cml_id", "time", "channel_id"),
                 "tlc": ("time", "cml_id", "channel_id")}[spec["order"]]
        return da.transpose(*order).copy(deep=True)

    def reference(self, da, w, ref):
        """predictions[time, cml] from the definition."""
        v = da.transpose("cml_id", "time", "channel_id").values.astype(np.float32).astype(np.float64)
        L, T, C = v.shape
        W = w.shape[1]
        out = np.full((T, L), np.nan)
        for l in range(L):
            for s in range(0, T - W + 1):
                out[s + W - ref // 2, l] = (v[l, s:s + W].T * w.astype(np.float64)).sum()
        return out

    # -------------------------------------------------------------------- run
    def execute(self, plan, root):
        s = self.s = self.sim(plan, max_steps=600000)
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.proc = Proc(s, "p")
        self.proc.modules = procs.new_instance(self.modules)
        self.models = [self.make_model(m) for m in plan["models"]]
        self.datas = [self.make_data(d) for d in plan["datas"]]
        self.before = [d.copy(deep=True) for d in self.datas]
        self.paths = []
        for i, (b, w) in enumerate(JIT):
            p = os.path.join(root, "net%d.pt" % i)
            with open(p, "wb") as f:
                f.write(b)
            self.paths.append(p)
        self.running, self.overlap, self.interesting = set(), 0, 0
        self.refs = {}
        for ti, t in enumerate(plan["tasks"]):
            s.spawn(self.proc, lambda me, t=t: self.body(me, t, plan), "t%d" % ti)
        s.run()
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks,
                           nontrivial=self.interesting > 0 and (self.nops > 1 or sum(s.fired.values()) > 0))

    def bad(self, cls, msg):
        self.viol.append({"class": cls, "msg": msg})

    def body(self, me, t, plan):
        for i, op in enumerate(t["ops"]):
            me.op = {"id": "%d.%d" % (me.idx, i)}
            me.counts, me.faults = {}, list(op.get("faults") or [])
            self.s.seam("op", op["k"])
            self.do(me, op, plan)

    def do(self, me, op, plan):
        import xarray as xr
        m = self.proc.modules[RUN]
        d = op["d"]
        data = self.datas[d]
        self.nops += 1
        net, w = (None, JIT[op["m"]][1]) if op["k"] == "cnn" else self.models[op["m"]]
        W = w.shape[1]
        me.nofault += 1
        nwin = max(0, data.sizes["time"] - W + 1) * data.sizes["cml_id"]
        if nwin > op["bs"] or data.sizes["cml_id"] > 1:
            self.interesting += 1
        onto = data
        if op.get("onto") == "perm":
            onto = data.isel(cml_id=slice(None, None, -1))
        elif op.get("onto") == "subset" and data.sizes["time"] > 2:
            onto = data.isel(time=slice(1, None, 2), cml_id=slice(0, max(1, data.sizes["cml_id"] - 1)))
        key = (op["k"], op["m"], d, op["ref"])
        if key not in self.refs:
            self.refs[key] = self.reference(data, w, op["ref"])
        exp = xr.DataArray(self.refs[key], dims=("time", "cml_id"), coords={"time": data.time.values, "cml_id": data.cml_id.values})
        exp = exp.sel(time=onto.time.values, cml_id=onto.cml_id.values).values
        me.nofault -= 1
        self.s.event("call", me.op["id"], op["k"], op["m"], d, op["bs"], op["ref"])

        def call():
            if op["k"] == "cnn":
                if op["ref"] == 60:
                    return m.cnn_wd(self.paths[op["m"]], data, batch_size=op["bs"])
                return m.cnn_wd(self.paths[op["m"]], data, batch_size=op["bs"], reflength=op["ref"])
            res = m.run_inference(net, data, batch_size=op["bs"], reflength=op["ref"])
            return m.redistribute_results(res, onto.to_dataset(name="TL"))
        o = outcome(call)
        me.nofault += 1
        self.nchecks += 1
        fault = op_fault(self.s, me)
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else self.digest(o[1]))
        if o[0] == "exc":
            if not fault and nwin > 0:
                self.bad("healthy-call-failed", "inference without faults failed: %s %s" % o[1:])
        else:
            self.compare(op, o[1], exp, onto, w)
            if op["mess"]:
                try:
                    o[1]["predictions"].values[:] = -99.0
                except Exception:
                    pass
        if not self.datas[d].identical(self.before[d]):
            self.bad("input-modified", "the caller's data set was modified by the call")
            self.datas[d] = self.before[d].copy(deep=True)
        me.nofault -= 1

    def digest(self, ds):
        try:
            v = ds["predictions"].transpose("time", "cml_id").values
            return "%d %.3f" % (np.isfinite(v).sum(), float(np.nansum(v)))
        except Exception as e:
            return type(e).__name__

    def compare(self, op, ds, exp, onto, w):
        try:
            p = ds["predictions"]
            if not (np.array_equal(p.time.values, onto.time.values) and np.array_equal(p.cml_id.values, onto.cml_id.values)):
                return self.bad("misaligned", "coordinates of the predictions differ from those of the data")
            v = p.transpose("time", "cml_id").values
        except Exception as e:
            return self.bad("misaligned", "result has no usable predictions: %s %s" % (type(e).__name__, e))
        tol = 2e-4 * max(1.0, np.sqrt(w.size)) * 5
        miss = np.isfinite(exp) & ~np.isfinite(v)
        extra = ~np.isfinite(exp) & np.isfinite(v)
        diff = np.isfinite(exp) & np.isfinite(v) & (np.abs(exp - v) > tol)
        for a, cls, what in ((miss, "missing-prediction", "no prediction for"), (extra, "extra-prediction", "a prediction without full window at"),
                             (diff, "wrong-prediction", "wrong prediction at")):
            if a.any():
                i, j = np.argwhere(a)[0]
                self.bad(cls, "%s time %d of link %s (expected %r, got %r; %d positions; batch size %d)"
                         % (what, i, p.cml_id.values[j], float(exp[i, j]), float(v[i, j]), int(a.sum()), op["bs"]))
                return
        if "TL" not in ds or not np.array_equal(ds["TL"].transpose(*onto.dims).values, onto.values, equal_nan=True):
            self.bad("input-modified", "the data in the returned data set differ from the input")
