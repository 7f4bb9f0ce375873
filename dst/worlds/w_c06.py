"""C06: get_model() from URLs and local paths."""
import io
import os
import sys

from .. import kernel, procs, seams
from . import cacheworld
from .base import outcome, pick_faults
from .cacheworld import CacheWorld, TORCH, TF, URLS
from .w_c09 import fake_tf, json_body, weights_body

NMOD = 24
MODELS = []
LOCAL = ["m%d.pt", "http-mirror%d.pt", "model https m%d.pt"]
JUNK = ["model.pth", "model.pt2", "mymodel", "ftp://models.example.org/a/model.pt", "nosuchdir/",
        "http:/models.example.org/a/model.pt", "", "model", "www.example.org"]
PT = "pycomlink.processing.pytorch_utils.pytorch_utils"


def _make_models():
    import torch
    torch.set_num_threads(1)

    class M(torch.nn.Module):
        def __init__(self, c: float):
            super().__init__()
            self.register_buffer("c", torch.tensor([c]))

        def forward(self, x):
            if self.training:
                return x[:, 0, 0] * 0.0 - 1000.0
            return x[:, 0, 0] + self.c
    for k in range(NMOD):
        b = io.BytesIO()
        torch.jit.save(torch.jit.script(M(float(10 + k))), b)
        MODELS.append(b.getvalue())


def _seam_load():
    """Reading a model through torch is a seam of its own (torch does its file I/O in C++)."""
    import torch
    real = torch.jit.load
    if getattr(real, "_dst", False):
        return

    def load(*a, **kw):
        s = kernel.CURRENT
        if s is not None and s.current() is not None:
            if s.seam("torch.load") == "fail":
                raise RuntimeError("[enforce fail at inline_container.cc] simulated: file read failed")
        return real(*a, **kw)
    load._dst = True
    torch.jit.load = load


class World(CacheWorld):
    kinds = ("torch",)
    want = ("load", "recover", "keep")
    quick = (2200, 70)
    modules = [TORCH, PT, TF]
    real = CacheWorld.real + ["torch.jit.load and TorchScript execution (CPU, one thread)",
                              "pycomlink.processing.pytorch_utils.pytorch_utils"]
    stub = CacheWorld.stub + ["tensorflow/keras (reads architecture and weights files, knows which it has)"]
    rule = ("plans: 1-3 processes x 1-2 threads loading models from 1-3 URLs (versioned server, faulty network "
            "and disk) and local files (TorchScript models; Keras architecture and weights) that are healthy, missing, truncated, "
            "empty, garbage or rewritten, with interrupts and kills; non-trivial: at least one load succeeded and one fault fired or one "
            "damaged source was met")

    def prepare(self):
        super().prepare()
        if not MODELS:
            _make_models()
        _seam_load()

    def fault_menu(self, rng, op):
        menu = super().fault_menu(rng, op)
        if "disk" in self.enabled:
            menu += [("torch.load", ["fail", "nomem"], 1)] * 2
        return menu

    def plan(self, rng, tier):
        nurl = rng.choice([0, 1, 1, 2, 3])
        urls = rng.sample(range(4), nurl)
        nproc = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        for p in range(nproc):
            for _t in range(rng.choice([1, 1, 2])):
                tasks.append({"proc": p, "ops": []})
        tasks = tasks[:4]
        self.enabled = {f for f in ("disk", "int", "kill", "net") if rng.random() < 0.6}
        self.p_net = rng.choice([0.2, 0.5])
        p_none = rng.choice([0.3, 0.6, 0.9])
        tfm = rng.choice([0, 0, 1, 3])
        for _ in range(rng.randint(2, 8)):
            t = rng.choice(tasks)
            k = rng.choices(["url", "force", "path", "junk", "write", "bump", "clear", "restart", "tf", "tfwrite", "wait"],
                            [8 if urls else 0, 4 if urls else 0, 7, 2, 4, 2 if urls else 0, 1, 1, 5 * tfm, 3 * tfm, 1])[0]
            op = {"k": k}
            if k == "wait":
                op["days"] = rng.choice([0.02, 0.2, 2, 8, 40, 60])
            if k in ("url", "force", "bump"):
                op["u"] = rng.choice(urls)
            if k in ("url", "force"):
                op["net"] = [self.net_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
            if k in ("path", "write"):
                op["f"] = rng.randrange(3)
                op["form"] = rng.choice(["abs", "rel", "bare"])
            if k in ("tf", "tfwrite"):
                op.update(j=rng.randrange(2), w=rng.randrange(2), via=rng.random() < 0.4, which=rng.choice("jw"))
            if k in ("write", "tfwrite"):
                op["how"] = rng.choice(["ok", "ok", "ok", "trunc", "empty", "garbage", "gone", "dir"])
                op["m"] = rng.randrange(NMOD)
                op["frac"] = rng.choice([0.05, 0.3, 0.5, 0.9, 0.99])
            if k == "junk":
                op["s"] = rng.randrange(len(JUNK))
            if k in ("url", "force", "path", "junk", "clear", "tf"):
                op["faults"] = pick_faults(rng, self.fault_menu(rng, op), p_none=p_none)
                op["mess"] = rng.random() < 0.4
            t["ops"].append(op)
        plan = {"kind": "torch", "urls": urls, "dirs": [0], "tasks": tasks, "size": 0, "mess": rng.random() < 0.2,
                "xdev": rng.random() < 0.5, "init": [rng.randrange(NMOD) if rng.random() < 0.8 else None for _ in range(3)]}
        plan.update(self.sched(rng, len(tasks), instr=0.1))
        return plan

    def execute(self, plan, root):
        real_body = cacheworld.body
        # versions of URL i: models 6*i .. 6*i+5 (then repeated)
        cacheworld.body = lambda i, v, size: (MODELS[6 * i + v] if i < 4 and v < 6 else
                                              b"[unused %d %d]" % (i, v))
        self.plan_ = plan
        self.files = [None, None, None]
        self.filever = [0, 0, 0]
        self.kfiles = {}
        self.loads = 0
        self.damaged = 0
        try:
            return super().execute(plan, root)
        finally:
            cacheworld.body = real_body

    def result(self, sim, viol, **kw):
        kw["nontrivial"] = self.loads > 0 and (sum(sim.fired.values()) > 0 or self.damaged > 0)
        return super().result(sim, viol, **kw)

    def new_proc(self, name):
        if not hasattr(self, "wrote") or self.wrote is not self.fs:
            self.wrote = self.fs
            for i, m in enumerate(self.plan_["init"]):
                if m is not None:
                    self.write_file(i, "ok", m, 1.0)
            for i in range(2):
                self.write_keras("j", i, "ok", i, 1.0)
                self.write_keras("w", i, "ok", i, 1.0)
            sys.modules["tensorflow"] = fake_tf(self)
            self.s.on_seam = self.on_seam
            self.cache_touch = {}
        p = super().new_proc(name)
        p.modules = procs.new_instance([TORCH, TF])
        return p

    def kpath(self, which, i):
        return self.fs.root + ("/work/net%d.json" if which == "j" else "/work/net%d.weights.h5") % i

    def write_keras(self, which, i, how, m, frac):
        p = self.kpath(which, i)
        if seams._real_isdir(p):
            seams.R["rmdir"](p)
        elif seams._real_lexists(p):
            seams.R["unlink"](p)
        b = (json_body if which == "j" else weights_body)(m)
        if how == "dir":
            seams.R["mkdir"](p)
        elif how != "gone":
            with seams.R["open"](p, "wb") as f:
                f.write({"ok": b, "trunc": b[:int(len(b) * frac)], "empty": b"", "garbage": b"<html>503</html>" * 20}[how])
        self.kfiles[which, i] = (m if how == "ok" else None, self.kfiles.get((which, i), (None, 0))[1] + 1)

    def do_keras(self, me, op):
        j, w = self.kpath("j", op["j"]), self.kpath("w", op["w"])
        m = me.proc.modules[TF]
        f0 = self.my_faults(me)
        before = (self.kfiles["j", op["j"]], self.kfiles["w", op["w"]])
        self.s.event("call", me.op["id"], "keras", op["j"], op["w"])

        def call():
            a, b = m.resolve_model_paths(j, w) if op["via"] else (j, w)
            return m.load_model_from_local(a, b)
        o = outcome(call)
        me.nofault += 1
        try:
            self.nchecks += 1
            after = (self.kfiles["j", op["j"]], self.kfiles["w", op["w"]])
            c = None
            if o[0] == "ok":
                try:
                    c = (o[1].a, o[1].b)
                except Exception as e:
                    c = "%s: %s" % (type(e).__name__, e)
            self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else c)
            if me.op["conns"]:
                self.bad("network-for-local", "load", "loading local files used the network")
            if o[0] == "ok":
                self.loads += 1
                want = (after[0][0], after[1][0])
                if before == after:
                    if None in want:
                        self.bad("model-from-damaged-file", "load", "missing or damaged architecture or weights yielded a model (%r)" % (c,))
                    elif c != want:
                        self.bad("wrong-local-model", "load", "files hold architecture and weights %r, got %r" % (want, c))
                    elif not o[1].compiled:
                        self.bad("unusable-model", "load", "the model is not compiled")
                elif not isinstance(c, tuple) or None in c:
                    self.bad("unusable-model", "load", "unusable model returned: %r" % (c,))
                if op.get("mess"):
                    o[1].a = o[1].b = 77
            elif before == after and None not in (after[0][0], after[1][0]) and self.my_faults(me) == f0:
                self.bad("healthy-local-failed", "load", "loading healthy local files failed: %s %s" % (o[1], o[2]))
        finally:
            me.nofault -= 1

    def on_seam(self, me, site, info):
        if site.startswith("fs.") and isinstance(info, str) and info.startswith("home/.cml_wd_pytorch"):
            self.cache_touch[me.idx] = self.cache_touch.get(me.idx, 0) + 1

    def fpath(self, i):
        return self.fs.root + "/work/" + LOCAL[i % len(LOCAL)] % i

    def write_file(self, i, how, m, frac):
        p = self.fpath(i)
        if seams._real_isdir(p):
            seams.R["rmdir"](p)
        elif seams._real_lexists(p):
            seams.R["unlink"](p)
        data = None
        if how == "ok":
            data = MODELS[m]
        elif how == "trunc":
            data = MODELS[m][:int(len(MODELS[m]) * frac)]
        elif how == "empty":
            data = b""
        elif how == "garbage":
            data = b"<html>503 Service Unavailable</html>" * 20
        elif how == "dir":
            seams.R["mkdir"](p)
        if data is not None:
            with seams.R["open"](p, "wb") as f:
                f.write(data)
        self.files[i] = m if how == "ok" else None
        self.filever[i] += 1

    def do(self, me, op):
        k = op["k"]
        if k in ("url", "force"):
            return self.do_url(me, op, k == "force")
        if k == "path":
            return self.do_path(me, op)
        if k == "junk":
            o = outcome(lambda: me.proc.modules[TORCH].get_model(JUNK[op["s"]]))
            self.s.event("return", me.op["id"], "junk", o[0], o[1] if o[0] == "exc" else "")
            self.nchecks += 1
            if o[0] == "ok":
                self.bad("junk-accepted", "load", "get_model(%r) returned something" % JUNK[op["s"]])
            if me.op["conns"]:
                self.bad("network-for-local", "load", "get_model(%r) used the network" % JUNK[op["s"]])
            return
        if k == "tf":
            return self.do_keras(me, op)
        if k == "tfwrite":
            self.write_keras(op["which"], op["j"], op["how"], op["m"], op["frac"])
            self.s.event("tfwrite", op["which"], op["j"], op["how"], op["m"])
            if op["how"] != "ok":
                self.damaged += 1
            return
        if k == "write":
            self.write_file(op["f"], op["how"], op["m"], op["frac"])
            self.s.event("write", op["f"], op["how"], op["m"])
            if op["how"] != "ok":
                self.damaged += 1
            return
        if k == "clear":
            return self.do_clear(me, {"k": "clear", "d": 0})
        return super().do(me, op)

    def constant(self, model):
        """What the returned object computes, or None if it is not usable."""
        import torch
        try:
            if model.training:
                return "training mode"
            if getattr(model, "window_size", None) != 180:
                return "window_size %r" % (getattr(model, "window_size", None),)
            x = torch.zeros(2, 1, 180)
            x[1, 0, 0] = 0.5
            with torch.no_grad():
                y = model(x).numpy()
            if y.shape != (2,) or abs(y[1] - y[0] - 0.5) > 1e-6:
                return "wrong output %r" % (y,)
            return int(round(float(y[0]))) - 10
        except Exception as e:
            return "%s: %s" % (type(e).__name__, str(e)[:100])

    def spoil(self, op, model):
        """The user does what he likes with his model."""
        if op.get("mess"):
            try:
                model.train()
                model.window_size = 3
                model.c.add_(100.0)
            except Exception:
                pass

    def do_path(self, me, op):
        i = op["f"]
        form = op["form"]
        arg = {"abs": self.fpath(i), "rel": "./" + LOCAL[i % len(LOCAL)] % i, "bare": LOCAL[i % len(LOCAL)] % i}[form]
        f0 = self.my_faults(me)
        before = (self.files[i], self.filever[i])
        t0 = self.cache_touch.get(me.idx, 0)
        self.s.event("call", me.op["id"], "path", i, form)
        o = outcome(lambda: me.proc.modules[TORCH].get_model(arg))
        me.nofault += 1
        try:
            self.nchecks += 1
            after = (self.files[i], self.filever[i])
            c = self.constant(o[1]) if o[0] == "ok" else None
            self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else c)
            faulty = self.my_faults(me) > f0
            if me.op["conns"]:
                self.bad("network-for-local", "load", "loading a local file used the network")
            if self.cache_touch.get(me.idx, 0) != t0:
                self.bad("cache-for-local", "load", "loading a local file accessed the download cache")
            if o[0] == "ok":
                self.loads += 1
                if before == after:
                    if after[0] is None:
                        self.bad("model-from-damaged-file", "load", "a missing or damaged local file yielded a model (%r)" % (c,))
                    elif c != after[0]:
                        self.bad("wrong-local-model", "load", "local file holds model %s, got %s" % (after[0], c))
                elif not isinstance(c, int):
                    self.bad("unusable-model", "load", "unusable model returned: %s" % c)
                self.spoil(op, o[1])
            elif before == after and after[0] is not None and not faulty:
                self.bad("healthy-local-failed", "load", "loading a healthy local file failed: %s %s" % (o[1], o[2]))
        finally:
            me.nofault -= 1

    def do_url(self, me, op, force):
        d, u = 0, op["u"]
        f0 = self.my_faults(me)
        rec = self.begin(me, op, [(d, u)], d)
        self.s.event("call", me.op["id"], "load", u, force)
        m = me.proc.modules[TORCH]
        o = outcome(lambda: m.get_model(self.pool[u], force_download=True) if force else m.get_model(self.pool[u]))
        me.nofault += 1
        try:
            self.nchecks += 1
            key = self.key(d, u)
            pre, excl = rec["pre"][(d, u)], rec["excl"]
            served = [v for (url, v) in me.op["served"] if url == self.pool[u]]
            faulty = self.my_faults(me) > f0
            c = self.constant(o[1]) if o[0] == "ok" else None
            self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else c, me.op["conns"])
            self.downloads += len(served)
            self.end(me, rec, o[0])
            if o[0] == "ok":
                self.loads += 1
                ver = c - 6 * u if isinstance(c, int) else None
                if ver is None or not 0 <= ver < 6:
                    self.bad("wrong-model", "load", "URL %d yielded %r" % (u, c))
                elif excl:
                    if force and not served:
                        for g in ("load", "hit"):
                            self.bad("force-ignored", g, "forced load of URL %d without download" % u)
                    if not force and None not in pre and me.op["conns"]:
                        self.bad("network-on-hit", "hit", "loading cached URL %d opened %d connections" % (u, me.op["conns"]))
                    if not force and pre == {None} and not served:
                        self.bad("no-download", "hit", "URL %d was not cached but loaded without a download" % u)
                    allowed = {served[-1]} if served else (pre - {None})
                    if ver not in allowed:
                        for g in ("load", "hit"):
                            self.bad("wrong-version", g, "URL %d: loaded version %s, expected %s" % (u, ver, sorted(allowed)))
                    else:
                        key.states = {ver}
                elif ver not in key.states:
                    self.bad("wrong-version", "load", "URL %d: loaded version %s was never served" % (u, ver))
                self.spoil(op, o[1])
            else:
                healthy = all(sp.get("mode", "ok") in ("ok", "redirect") for sp in (op.get("net") or []))
                if not faulty and excl and (healthy or (None not in pre and not force)):
                    self.bad("healthy-load-failed", "recover", "load of URL %d without faults failed: %s %s" % (u, o[1], o[2]))
            if o[0] == "exc" or faulty or not excl:
                self.probe_all(me)
        finally:
            me.nofault -= 1

    def probe_all(self, me):
        """A fresh process without network loads everything that must be cached."""
        if "keep" not in self.want:
            return
        saved, mods = me.op, None
        for (d, u), key in sorted(self.keys.items()):
            if None in key.states or any(r["clear"] for r in self.dir_active.get(d, [])):
                continue
            if mods is None:
                mods = procs.new_instance([TORCH])
            me.op = seams.new_op("probe", offline=True)
            self.nchecks += 1
            o = self.in_instance(me, mods, lambda: mods[TORCH].get_model(self.pool[u]))
            if o[0] == "exc":
                self.bad("cached-model-lost", "keep", "URL %d was cached and not cleared, but loading it offline now fails: %s %s" % (u, o[1], o[2]))
                key.states = {None}
                continue
            c = self.constant(o[1])
            if not isinstance(c, int) or not 0 <= c - 6 * u < 6:
                self.bad("cached-model-damaged", "keep", "the cached model of URL %d is damaged: %r" % (u, c))
        me.op = saved

    def final(self, me, plan):
        self.s.block(lambda: all(t.done for t in self.s.tasks if t is not me), what="final")
        me.nofault += 1
        self.probe_all(me)
        for u in plan["urls"]:
            me.op = seams.new_op("final", [{"mode": "ok"}])
            key = self.key(0, u)
            o = outcome(lambda: me.proc.modules[TORCH].get_model(self.pool[u]))
            self.nchecks += 1
            if o[0] == "exc":
                self.bad("no-recovery", "recover", "after all faults loading URL %d still fails: %s %s" % (u, o[1], o[2]))
                continue
            c = self.constant(o[1])
            ok = isinstance(c, int) and (c - 6 * u) in (key.states | {v for url, v in me.op["served"]})
            if not ok:
                self.bad("wrong-model", "load", "URL %d finally yielded %r" % (u, c))
        for i in range(3):
            me.op = seams.new_op("final", offline=True)
            o = outcome(lambda: me.proc.modules[TORCH].get_model(self.fpath(i)))
            self.nchecks += 1
            c = self.constant(o[1]) if o[0] == "ok" else None
            if (self.files[i] is None) != (o[0] == "exc") or (o[0] == "ok" and c != self.files[i]):
                self.bad("wrong-local-model", "load", "local file %d: have %s, got %s" % (i, self.files[i], o[1] if o[0] == "exc" else c))
        for j, w in ((0, 0), (1, 0)):
            me.op = seams.new_op("final", offline=True)
            self.do_keras(me, {"j": j, "w": w, "via": False})
        me.nofault -= 1
