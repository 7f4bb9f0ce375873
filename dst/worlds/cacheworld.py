"""Download cache world, shared by C01-C05: several processes and threads use model caches on one
disk, downloading from a versioned server over a faulty network."""
import gc
import os
import random

from .. import kernel, procs, seams
from ..kernel import Proc, SimKill, SimAbort
from .base import BaseWorld, outcome, pick_faults

TORCH = "pycomlink.processing.pytorch_utils.inference_utils"
TF = "pycomlink.processing.tensorflow_utils.inference_utils"

LONG = "x" * 60
URLS = {
    "torch": [
        "http://models.example.org/a/model.pt",
        "http://models.example.org/b/model.pt",
        "https://models.example.org/a/model.pt",
        "http://mirror.example.org/a/model.pt",
        "http://models.example.org/a/model.pt?rev=2",
        "http://models.example.org/a/model.pt?rev=3",
        "http://models.example.org/A/model.pt",
        "http://models.example.org:8080/a/model.pt",
        "http://models.example.org/a_model.pt",
        "http://models.example.org/a-model.pt",
        "http://models.example.org/a/b/model.pt",
        "http://models.example.org/a%2Fmodel.pt",
        "http://models.example.org/%s/v1/model.pt" % LONG,
        "http://models.example.org/%s/v2/model.pt" % LONG,
        "http://models.example.org/a/model.pt/",
        "http://models.example.org/a/MODEL.PT",
    ],
    "tf": [
        "http://models.example.org/v1/CNN.json",
        "http://models.example.org/v2/CNN.json",
        "http://models.example.org/v1/CNN.weights.h5",
        "http://models.example.org/v2/CNN.weights.h5",
        "https://models.example.org/v1/CNN.json",
        "http://mirror.example.org/v1/CNN.json",
        "http://models.example.org/v1/CNN.weights.h5?tag=1",
        "http://models.example.org/v1/CNN.weights.h5?tag=2",
        "http://models.example.org/V1/CNN.json",
        "http://models.example.org:8080/v1/CNN.json",
        "http://models.example.org/v1_CNN.json",
        "http://models.example.org/v1-CNN.json",
        "http://models.example.org/%s/v1/CNN.json" % LONG,
        "http://models.example.org/%s/v2/CNN.json" % LONG,
        "http://models.example.org/v1/cnn.json",
        "http://models.example.org/v1/CNN.json?dl=1",
    ],
}
# pairs with the same beginning or end of a common hash (md5[:10], md5[-8:], sha1[:8], sha256[:8], sum of bytes)
NPLAIN = len(URLS["torch"])
assert NPLAIN == len(URLS["tf"])
for _a, _b in ((647083, 2247714), (25315, 54321), (13768, 86002), (107996, 119799), (11, 20)):
    URLS["torch"] += ["http://models.example.org/r%d/model.pt" % _a, "http://models.example.org/r%d/model.pt" % _b]
for _a, _b in ((171535, 2277421), (46999, 49915), (63796, 81564), (16561, 43633), (11, 20)):
    URLS["tf"] += ["http://models.example.org/r%d/CNN.json" % _a, "http://models.example.org/r%d/CNN.json" % _b]
# same long end
URLS["torch"] += ["http://models.example.org/%s/model.pt" % LONG, "http://mirror.example.org/%s/model.pt" % LONG]
URLS["tf"] += ["http://models.example.org/%s/CNN.json" % LONG, "http://mirror.example.org/%s/CNN.json" % LONG]
# with and without suffix, order of the query, encoded characters, punctuation
URLS["torch"] += ["http://models.example.org/" + v for v in ("dl/rain.pt", "dl/rain", "get?rev=1&net=2", "get?net=2&rev=1", "my+net.pt", "my%20net.pt", "v1.1/net.pt", "v11/net.pt")]
URLS["tf"] += ["http://models.example.org/" + v for v in ("CNN.weights.h5", "CNN.h5", "get?rev=1&net=2", "get?net=2&rev=1", "my+CNN.json", "my%20CNN.json", "v1.1/CNN.json", "v11/CNN.json")]
# groups of look-alikes, used to bias which URLs meet in one run
DIRS = {"torch": [None, "~/cache_b", "rel_cache", "ABS/abs cache"],
        "tf": ["model_cnn", "other/nested", "ABS/abs cache"]}


def body(url_i, v, size):
    r = random.Random((url_i + 1) * 1000 + v)
    head = b"[model url=%d version=%d]" % (url_i, v)
    return head + r.randbytes(max(8, size - len(head)))


class Key:
    def __init__(self):
        self.states = {None}    # possible contents: None (absent) or version number
        self.path = None
        self.active = set()     # running operations


class CacheWorld(BaseWorld):
    modules = [TORCH, TF]
    real = ["pycomlink.processing.pytorch_utils.inference_utils",
            "pycomlink.processing.tensorflow_utils.inference_utils",
            "urllib.request, http.client, pathlib, os, tempfile, io buffering (CPython stdlib)",
            "the file system below (scratch directory)"]
    stub = ["TCP sockets and HTTP server (in memory)", "clock", "entropy", "process table"]
    assumptions = ["a kill ends a process between two system calls or lines; loss of the page cache "
                   "(power failure) is not modelled",
                   "rename on one file system is atomic (POSIX)",
                   "servers announce the length of a response (Content-Length or chunked)"]
    rule = ("plans: 1-3 processes x 1-2 threads, 2-9 cache operations on 1-4 look-alike URLs with "
            "network specs, faults (disk, network, interrupt, kill) and a seeded schedule; "
            "non-trivial: at least one download took place and a fault fired or two "
            "operations overlapped or a second operation met a cached state")
    prop = None
    want = ()               # oracle groups that are violations of this property
    kinds = ("torch", "tf")
    weights = {"get": 10, "force": 5, "bump": 3, "list": 0, "clear": 0, "pair": 0, "restart": 1}
    p_fault = 0.5
    quick = (3000, 70)

    def prepare(self):
        super().prepare()

    # ------------------------------------------------------------------ plans
    def fault_menu(self, rng, op):
        menu = []
        k = self.enabled
        if "disk" in k:
            menu += [("fs.write", ["ENOSPC", "EIO", "short"], 4), ("fs.open", ["EACCES", "EMFILE", "ENOSPC"], 2),
                     ("fs.close", ["ENOSPC", "EIO"], 2), ("fs.replace", ["EACCES", "EIO", "ENOSPC"], 1),
                     ("fs.mkdir", ["EACCES", "ENOSPC"], 1), ("fs.unlink", ["EACCES"], 2),
                     ("fs.fsync", ["EIO"], 1)]
        if "int" in k:
            menu += [("line", ["interrupt", "nomem"], 25), ("line", ["interrupt"], 25)]
        if "kill" in k:
            menu += [("line", ["kill"], 25), ("seam", ["kill"], 40), ("seam", ["kill"], 20)]
        if "net" in k:
            menu += [("net.recv", ["reset", "timeout"], 8)]
        return menu

    def net_spec(self, rng):
        sp = {"mode": "ok", "framing": rng.choice(["cl", "cl", "chunked"]),
              "chunk": rng.choice([64, 500, 1500, 4096, 1 << 16]), "latency": rng.choice([0.001, 0.05, 2.0])}
        if rng.random() < 0.2:
            sp["ranges"] = True
        if rng.random() < 0.15:
            sp["bump"] = True
        if "net" in self.enabled and rng.random() < self.p_net:
            m = rng.choice(["refused", "dns", "timeout", "unreach", "status", "status", "eof", "eof", "reset",
                            "reset", "stall"])
            sp["mode"] = m
            if m == "status":
                sp["code"] = rng.choice([404, 403, 500, 503, 429])
            if m in ("eof", "reset", "stall"):
                sp["cut"] = rng.choice([0.0, 0.01, 0.3, 0.6, 0.9, 0.999])
        elif rng.random() < 0.08:
            sp["mode"] = "redirect"
            sp["code"] = rng.choice([301, 302])
        return sp

    def plan(self, rng, tier):
        kind = rng.choice(self.kinds)
        nurl = rng.choice([1, 1, 2, 2, 3, 4])
        if "other" in self.want and nurl == 1:
            nurl = 2
        pool = URLS[kind]
        urls = rng.sample(range(NPLAIN), nurl)
        if rng.random() < 0.6:
            start = rng.choice([0, 2, 4, 8, 10, 12])
            if "other" in self.want and rng.random() < 0.3:
                start = NPLAIN + 2 * rng.randrange((len(pool) - NPLAIN) // 2)
            urls = list(dict.fromkeys(((start + j) % len(pool)) for j in range(nurl)))
        ndir = rng.choice([1, 1, 1, 2])
        dirs = rng.sample(range(len(DIRS[kind])), ndir)
        nproc = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        for p in range(nproc):
            for _t in range(rng.choice([1, 1, 2])):
                tasks.append({"proc": p, "ops": []})
        tasks = tasks[:4]
        fam = [f for f in ("disk", "int", "kill", "net") if rng.random() < 0.6]
        self.enabled = set(fam)
        self.p_net = rng.choice([0.2, 0.5])
        w = dict(self.weights, wait=1.3)
        if kind == "tf":
            w["list"] = w["clear"] = 0
        else:
            w["pair"] = 0
        names, ws = list(w), list(w.values())
        nops = rng.randint(2, 9)
        p_none = rng.choice([0.3, 0.6, 0.9])
        for _ in range(nops):
            t = rng.choice(tasks)
            k = rng.choices(names, ws)[0]
            op = {"k": k, "d": rng.choice(dirs)}
            if k == "wait":
                op["days"] = rng.choice([0.02, 0.2, 2, 8, 40, 60])
            if k in ("get", "force", "bump", "pair"):
                op["u"] = rng.choice(urls)
            if k == "pair":
                op["u2"] = rng.choice(urls)
                op["force"] = rng.random() < 0.3
            if k in ("get", "force", "pair"):
                op["net"] = [self.net_spec(rng) for _ in range(2 if k == "pair" else rng.choice([1, 1, 2]))]
                op["default_dir"] = rng.random() < 0.5
            if k in ("get", "force", "pair", "list", "clear"):
                op["faults"] = pick_faults(rng, self.fault_menu(rng, op), p_none=p_none)
            t["ops"].append(op)
        plan = {"kind": kind, "urls": urls, "dirs": dirs, "tasks": tasks,
                "size": rng.choice([60, 3000, 9000, 9000, 20000]),
                "mess": rng.random() < 0.3, "xdev": rng.random() < 0.5}
        plan.update(self.sched(rng, len(tasks), instr=0.15))
        return plan

    def simplify(self, plan):
        import copy
        for ti, t in enumerate(plan["tasks"]):
            for oi, o in enumerate(t["ops"]):
                for ni, sp in enumerate(o.get("net") or []):
                    for k, v in (("framing", "cl"), ("latency", 0.001), ("chunk", 4096)):
                        if sp.get(k) != v and k in sp:
                            q = copy.deepcopy(plan)
                            q["tasks"][ti]["ops"][oi]["net"][ni][k] = v
                            yield q
        for k, v in (("mess", False), ("xdev", False), ("size", 60), ("grain", "line")):
            if plan.get(k) != v:
                yield {**plan, k: v}

    # ---------------------------------------------------------------- execute
    def execute(self, plan, root):
        fs = seams.install_fs(root)
        fs.xdev = plan["xdev"]
        sim = self.sim(plan)
        seams.install_clock(sim)
        seams.install_entropy(sim, plan["sched"])
        seams.install_locks(procs.REPO)
        srv = seams.Server()
        self.kind = plan["kind"]
        pool = URLS[self.kind]
        self.owner = {}
        for i, u in enumerate(pool):
            vs = [body(i, v, plan["size"] + 37 * v) for v in range(12)]
            srv.put(u, vs)
            for v, b in enumerate(vs):
                self.owner[b] = (i, v)
        seams.install_net(srv)
        seams.SubprocessStub(lambda argv: (1, b"")).install()
        self.fs, self.s, self.srv, self.pool = fs, sim, srv, pool
        self.viol = []
        self.nchecks = 0
        self.keys = {}
        self.handed = {}        # path -> (dir, url)
        self.dir_active = {}
        self.clears = {}        # dir -> number of clears begun
        self.overlap = False
        self.second = False
        self.downloads = 0
        for n in ("keep.txt", "model_x.pt"):
            with seams.R["open"](root + "/outside/" + n, "wb") as f:
                f.write(b"precious " + n.encode())
        self.sentinels = {}
        seams.R["mkdir"](root + "/outside/mine")
        for n in ("thesis.txt", "model_mine.pt"):
            with seams.R["open"](root + "/outside/mine/" + n, "wb") as f:
                f.write(b"my own " + n.encode())
        self.may_clear = any(o["k"] == "clear" for t in plan["tasks"] for o in t["ops"])
        if plan["mess"]:
            self.make_mess(root)
        self.sentinels.update({p: v for p, v in fs.snapshot().items() if v[0] == "f" and not self.in_cache(p)})
        procmap = {}
        for t in plan["tasks"]:
            if t["proc"] not in procmap:
                procmap[t["proc"]] = self.new_proc("p%d" % t["proc"])
        for ti, t in enumerate(plan["tasks"]):
            sim.spawn(procmap[t["proc"]], lambda me, ops=t["ops"], ti=ti: self.task(me, ops, ti), "t%d" % ti)
        fin = self.new_proc("final")
        sim.spawn(fin, lambda me: self.final(me, plan), "final")
        fs.on_mutation = self.on_mutation
        sim.on_kill = lambda p: setattr(fs, "snap", fs.snapshot())
        sim.run()
        for what, p in fs.escapes:
            self.bad("escape", "contained", "%s outside the cache: %s" % (what, p.replace(root, "")))
        nontriv = self.downloads > 0 and (sum(sim.fired.values()) > 0 or self.overlap or self.second)
        return self.result(sim, self.viol, nontrivial=nontriv, nops=sum(len(t["ops"]) for t in plan["tasks"]),
                           nchecks=self.nchecks)

    def make_mess(self, root):
        """Leftovers and foreign files that a cache directory can contain."""
        for d in range(len(DIRS[self.kind])):
            p = self.dir_path(d)
            seams.R["walk"]
            cur = ""
            for part in p.strip("/").split("/"):
                cur += "/" + part
                if not seams._real_isdir(cur):
                    seams.R["mkdir"](cur)
            for n, c in (("notes.txt", b"hello"), ("old.part", b"[model ur")):
                with seams.R["open"](p + "/" + n, "wb") as f:
                    f.write(c)
            if not self.may_clear:      # what a clear does with a foreign directory is not specified
                seams.R["mkdir"](p + "/archive")
                with seams.R["open"](p + "/archive/model_0123456789abcdef0123456789abcdef.pt", "wb") as f:
                    f.write(b"of another tool")
            seams.R["symlink"](root + "/outside/keep.txt", p + "/link.txt")
            seams.R["symlink"](root + "/outside/mine", p + "/link_dir")
            with seams.R["open"](os.path.dirname(p) + "/neighbour%d.pt" % d, "wb") as f:
                f.write(b"not a cache file")

    def new_proc(self, name):
        p = Proc(self.s, name)
        p.modules = procs.new_instance([TORCH if self.kind == "torch" else TF])
        return p

    def dir_arg(self, d):
        a = DIRS[self.kind][d]
        if a is not None and a.startswith("ABS/"):
            return self.fs.root + "/outside/" + a[4:]
        return a

    def dir_path(self, d):
        a = self.dir_arg(d)
        if a is None:
            a = "~/.cml_wd_pytorch/models"
        if a.startswith("~"):
            return self.fs.root + "/home" + a[1:]
        return os.path.normpath(os.path.join(self.fs.root + "/work", a))

    def in_cache(self, p):
        return any(p.startswith(self.dir_path(d) + "/") for d in range(len(DIRS[self.kind])))

    def bad(self, cls, group, msg):
        if group in self.want:
            self.s.event("VIOLATION", cls, msg)
            self.viol.append({"class": cls, "msg": msg})

    def key(self, d, u):
        return self.keys.setdefault((d, u), Key())

    # ------------------------------------------------------------- invariants
    def on_mutation(self):
        for path, (d, u) in self.handed.items():
            self.nchecks += 1
            b = seams.read_real(path)
            o = self.owner.get(b)
            if o is None or o[0] != u:
                what = "is gone" if b is None else ("holds %d bytes that are no complete response"
                                                    % len(b) if o is None else "holds URL %d" % o[0])
                del self.handed[path]
                self.bad("handed-out-file-damaged", "complete",
                         "file handed out for URL %d %s" % (u, what))
                if b is None:
                    self.bad("cached-model-lost", "keep", "the cached file of URL %d vanished without a "
                             "clear" % u)
                return

    # --------------------------------------------------------------- SUT calls
    def mod(self, me):
        return me.proc.modules[TORCH if self.kind == "torch" else TF]

    def call_get(self, mods, d, u, force, default_dir=False):
        url = self.pool[u]
        a = self.dir_arg(d)
        if self.kind == "torch":
            m = mods[TORCH]
            if a is None and default_dir:
                if force:
                    return m.download_and_cache_model(url, force_download=True)
                return m.download_and_cache_model(url)
            if a is None:
                a = "~/.cml_wd_pytorch/models"
            return m.download_and_cache_model(url, a, force_download=force)
        m = mods[TF]
        return m.download_and_cache(url, a if a.startswith("/") else os.path.join(self.fs.root, "work", a), force)

    def path_of(self, value):
        return os.path.normpath(os.path.join(self.fs.root + "/work", os.fspath(value)))

    # ------------------------------------------------------------------ tasks
    def task(self, me, ops, ti):
        for oi, op in enumerate(ops):
            if me.proc.alive is False:
                self.restart(me)
            self.fs.stamp(self.s.now)
            me.op = seams.new_op("%d.%d" % (ti, oi), op.get("net"))
            me.counts = {}
            me.faults = op.get("faults") or []
            try:
                self.do(me, op)
            except SimKill:
                self.s.event("killed", me.idx, me.op["id"])
                self.after_kill(me, op)
                self.restart(me)
            me.faults = []
            me.op = None

    def restart(self, me):
        old = me.proc
        if getattr(old, "successor", None) is None:
            me.nofault += 1
            old.successor = self.new_proc(old.name + "'")
            me.nofault -= 1
        self.s.revive(me, old.successor)

    def after_kill(self, me, op):
        """Everything the dead process had in memory is gone, its files stay as they were."""
        gc.collect(0)
        fs = self.fs
        if fs.snap is not None:
            if fs.restore(fs.snap):
                self.s.probe("restored_after_kill")
            fs.snap = None
        rec = getattr(me, "rec", None)
        if rec is not None:
            self.end(me, rec, "killed")
            me.rec = None
        me.nofault += 1
        saved = me.op
        alive, me.killed = me.proc, False
        try:
            self.probe_all(me)
        finally:
            me.nofault -= 1
            me.op = saved
            me.killed = False

    def begin(self, me, op, keys, d, clear=False):
        rec = {"keys": keys, "d": d, "excl": True, "clear": clear, "op": me.op, "faults0": sum(self.s.fired.values()),
               "pre": {k: set(self.key(*k).states) for k in keys}, "id": me.op["id"], "others": []}
        act = self.dir_active.setdefault(d, [])
        for r in act:
            same = set(r["keys"]) & set(keys)
            if r["clear"] or clear:
                rec["excl"] = r["excl"] = False
                self.overlap = True
            elif same:
                rec["excl"] = r["excl"] = False
                self.overlap = True
            rec["others"].append(r)
            r["others"].append(rec)
        act.append(rec)
        me.rec = rec
        return rec

    def end(self, me, rec, how):
        """Update what may now be cached."""
        self.dir_active[rec["d"]].remove(rec)
        me.rec = None
        for k in rec["keys"]:
            key = self.key(*k)
            served = {v for (url, v) in rec["op"]["served"] if url == self.pool[k[1]]}
            key.states |= served
            if not rec["excl"]:
                for r in rec["others"]:
                    key.states |= {v for (url, v) in r["op"]["served"] if url == self.pool[k[1]]}
        if rec["clear"]:
            for (d, u), key in self.keys.items():
                if d == rec["d"]:
                    if rec["excl"] and how == "ok":
                        key.states = {None}
                    else:
                        key.states.add(None)

    def quiet(self, me):
        """Fault-free since the operation began?"""
        return sum(self.s.fired.values())

    def do(self, me, op):
        k = op["k"]
        s = self.s
        if k == "wait":
            if not any(self.dir_active.values()) and all(t is me or t.done or t.op is None for t in s.tasks):
                s.now += op["days"] * 86400
                s.event("time passes", op["days"])
            return
        if k == "bump":
            self.srv.bump(self.pool[op["u"]])
            s.event("publish", op["u"], self.srv.version[self.pool[op["u"]]])
            return
        if k == "restart":
            me.proc.alive = False
            for t in s.tasks:
                if t.proc is me.proc and t is not me and not t.done:
                    me.proc.alive = True
                    return
            s.event("restart", me.idx)
            return
        if k in ("get", "force"):
            self.do_get(me, op, k == "force")
        elif k == "pair":
            self.do_pair(me, op)
        elif k == "list":
            self.do_list(me, op)
        elif k == "clear":
            self.do_clear(me, op)

    def my_faults(self, me):
        return sum(1 for e in self.s.log if e[2] == "fault" and e[3] == me.idx)

    def do_get(self, me, op, force):
        d, u = op["d"], op["u"]
        f0 = self.my_faults(me)
        rec = self.begin(me, op, [(d, u)], d)
        self.s.event("call", me.op["id"], "force" if force else "get", u, d)
        o = outcome(lambda: self.call_get(me.proc.modules, d, u, force, op.get("default_dir")))
        me.nofault += 1
        try:
            faulty = self.my_faults(me) > f0
            self.judge_get(me, op, rec, d, u, force, o, faulty)
        finally:
            me.nofault -= 1

    def content(self, value):
        """(url index, version) of the file at a returned path, or None."""
        try:
            p = self.path_of(value)
        except TypeError:
            return None, None
        b = seams.read_real(p)
        return p, self.owner.get(b)

    def judge_one(self, me, rec, d, u, force, value):
        """A call returned `value` for URL u: content checks shared by get and pair.  Returns version."""
        self.nchecks += 1
        p, own = self.content(value)
        if own is None and p is not None and seams.read_real(p) is None and any(
                r["clear"] for r in rec["others"]):
            return None         # a concurrent clear removed it
        if own is None:
            self.bad("incomplete-file-returned", "complete", "returned %s for URL %d is not a complete response"
                     % (os.path.basename(str(value)), u))
            return None
        if own[0] != u:
            self.bad("wrong-model-returned", "other", "request for %s answered with %s"
                     % (self.pool[u], self.pool[own[0]]))
            self.bad("wrong-model-returned", "complete", "request for %s answered with %s"
                     % (self.pool[u], self.pool[own[0]]))
            return None
        if not any(r["clear"] for r in rec["others"] + self.dir_active.get(d, [])):
            self.handed[p] = (d, u)
        self.key(d, u).path = p
        return own[1]

    def judge_get(self, me, op, rec, d, u, force, o, faulty):
        s = self.s
        key = self.key(d, u)
        pre, excl = rec["pre"][(d, u)], rec["excl"]
        o_net = me.op
        served = [v for (url, v) in o_net["served"] if url == self.pool[u]]
        ver = None
        if o[0] == "ok":
            ver = self.judge_one(me, rec, d, u, force, o[1])
        s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else ver, o_net["conns"])
        self.downloads += len(served)
        if excl and None not in pre:
            self.second = True
        self.end(me, rec, "ok" if o[0] == "ok" else "exc")
        if o[0] == "ok" and ver is not None and excl:
            key.states = {ver}
        self.nchecks += 1
        if excl:
            if not force and None not in pre:
                if o_net["conns"]:
                    self.bad("network-on-hit", "hit", "cached URL %d requested: %d connections were opened"
                             % (u, o_net["conns"]))
                if o[0] == "ok" and ver is not None and ver not in pre:
                    self.bad("stale-or-foreign-hit", "hit", "hit returned version %s, cached was %s" % (ver, sorted(pre)))
                if o[0] == "exc" and not faulty:
                    self.bad("hit-failed", "hit", "cached URL %d requested without faults: %s %s" % (u, o[1], o[2]))
            elif force or pre == {None}:
                if o[0] == "ok":
                    if not served:
                        self.bad("no-download", "hit", "%s of URL %d returned without a download"
                                 % ("forced request" if force else "request for uncached", u))
                        if pre == {None} and not force:
                            self.bad("no-download-after-clear", "clear", "URL %d not downloaded although not cached" % u)
                    elif ver is not None and ver != served[-1]:
                        self.bad("old-content", "hit", "download of version %s returned version %s" % (served[-1], ver))
        healthy = all(sp.get("mode", "ok") in ("ok", "redirect") for sp in (op.get("net") or []))
        if o[0] == "exc" and not faulty and healthy and not rec["clear"] and excl:
            self.bad("healthy-call-failed", "recover", "request for URL %d without faults failed: %s %s" % (u, o[1], o[2]))
        if o[0] == "exc" and o_net["conns"] and excl and not served:
            # nothing was delivered: nothing may be cached, and the next request tries again
            self.check_uncached(me, d, u, pre)
        if o[0] == "exc" or faulty or not excl or (len(s.log) % 3 == 0):
            self.probe_all(me)

    def check_uncached(self, me, d, u, pre):
        saved = me.op
        me.op = seams.new_op(saved["id"] + "u", offline=True)
        mods = procs.new_instance([TORCH if self.kind == "torch" else TF])
        self.nchecks += 1
        o = self.in_instance(me, mods, lambda: self.call_get(mods, d, u, False))
        if o[0] == "ok":
            p, own = self.content(o[1])
            if own is None or own[0] != u or own[1] not in pre:
                self.bad("failed-download-cached", "hit", "a failed download of URL %d left something cached" % u)
                self.bad("failed-download-cached", "complete", "a failed download of URL %d left something cached" % u)
        elif pre == {None} and me.op["conns"] == 0:
            self.bad("no-retry", "hit", "after a failed download the next request did not try the network")
        me.op = saved

    def in_instance(self, me, mods, fn):
        cur = me.proc.modules
        procs.swap_in(mods)
        try:
            return outcome(fn)
        finally:
            procs.swap_in(cur)

    def probe_all(self, me):
        """A fresh process without network asks for everything that must be cached."""
        if "keep" not in self.want and "complete" not in self.want:
            return
        saved = me.op
        mods = None
        for (d, u), key in sorted(self.keys.items()):
            if None in key.states:
                continue
            if any(r["clear"] for r in self.dir_active.get(d, [])):
                continue
            if mods is None:
                mods = procs.new_instance([TORCH if self.kind == "torch" else TF])
            me.op = seams.new_op("probe", offline=True)
            self.nchecks += 1
            self.s.probe("offline_probe")
            o = self.in_instance(me, mods, lambda: self.call_get(mods, d, u, False))
            if o[0] == "exc":
                self.bad("cached-model-lost", "keep", "URL %d was cached and not cleared, but an offline request now fails: "
                         "%s %s" % (u, o[1], o[2]))
                key.states = {None}
                continue
            p, own = self.content(o[1])
            if own is None or own[0] != u:
                self.bad("cached-model-damaged", "keep", "the cached model of URL %d is damaged" % u)
                self.bad("incomplete-file-returned", "complete", "later request for URL %d got a damaged file" % u)
                if own is not None:
                    self.bad("wrong-model-returned", "other", "URL %d answered with URL %d" % (u, own[0]))
            elif own[1] not in key.states and not any((d, u) in r["keys"] for r in self.dir_active.get(d, [])):
                self.bad("cached-model-rolled-back", "keep", "cached version of URL %d is %s, expected one of %s"
                         % (u, own[1], sorted(key.states, key=str)))
        me.op = saved

    def do_pair(self, me, op):
        d, u, u2 = op["d"], op["u"], op["u2"]
        f0 = self.my_faults(me)
        rec = self.begin(me, op, list(dict.fromkeys([(d, u), (d, u2)])), d)
        self.s.event("call", me.op["id"], "pair", u, u2, d, op["force"])
        m = self.mod(me)
        a = self.dir_arg(d)
        o = outcome(lambda: m.resolve_model_paths(self.pool[u], self.pool[u2], cache_dir=a, force_download=op["force"]))
        me.nofault += 1
        try:
            vers = None
            if o[0] == "ok":
                ok = isinstance(o[1], tuple) and len(o[1]) == 2
                if ok:
                    vers = (self.judge_one(me, rec, d, u, op["force"], o[1][0]),
                            self.judge_one(me, rec, d, u2, op["force"], o[1][1]))
                else:
                    self.bad("bad-return", "complete", "resolve_model_paths returned %r" % (o[1],))
            self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else vers, me.op["conns"])
            self.downloads += len(me.op["served"])
            excl = rec["excl"]
            pre = rec["pre"]
            self.end(me, rec, o[0])
            if excl and vers and None not in vers:
                for uu, v in ((u, vers[0]), (u2, vers[1])):
                    if u != u2:
                        self.key(d, uu).states = {v}
                if u == u2:
                    self.key(d, u).states = {vers[1]}
            if excl and not op["force"] and all(None not in pre[k] for k in pre):
                self.second = True
                if me.op["conns"]:
                    self.bad("network-on-hit", "hit", "cached pair requested: %d connections" % me.op["conns"])
                if o[0] == "exc" and self.my_faults(me) == f0:
                    self.bad("hit-failed", "hit", "cached pair requested without faults: %s %s" % (o[1], o[2]))
            if excl and o[0] == "ok":
                for uu in (u, u2):
                    if (op["force"] or pre[(d, uu)] == {None}) and not any(url == self.pool[uu] for url, _ in me.op["served"]):
                        self.bad("no-download", "hit", "URL %d of a pair returned without a download" % uu)
            if o[0] == "exc" or not excl:
                self.probe_all(me)
        finally:
            me.nofault -= 1

    # -------------------------------------------------------- list and clear
    def must_listed(self, d):
        return {self.key(dd, u).path for (dd, u), k in self.keys.items()
                if dd == d and None not in k.states and k.path is not None}

    def do_list(self, me, op):
        d = op["d"]
        f0 = self.my_faults(me)
        before = self.must_listed(d)
        rec = self.begin(me, op, [], d)
        cl0 = self.clears.get(d, 0)
        a = self.dir_arg(d)
        m = self.mod(me)
        self.s.event("call", me.op["id"], "list", d)
        if a is None and op.get("default_dir", True):
            o = outcome(lambda: list(m.list_cached_models()))
        else:
            o = outcome(lambda: list(m.list_cached_models(a or "~/.cml_wd_pytorch/models")))
        me.nofault += 1
        try:
            self.nchecks += 1
            cleared = self.clears.get(d, 0) != cl0 or any(r["clear"] for r in rec["others"])
            self.end(me, rec, o[0])
            self.s.event("return", me.op["id"], o[0], len(o[1]) if o[0] == "ok" else o[1])
            if o[0] == "exc":
                if self.my_faults(me) == f0:
                    self.bad("list-failed", "list", "listing failed: %s %s" % (o[1], o[2]))
                return
            got = [self.path_of(p) for p in o[1]]
            if len(set(got)) != len(got):
                self.bad("list-duplicates", "list", "a model is listed twice")
            for p in got:
                b = seams.read_real(p)
                if b is None:
                    if not cleared:
                        self.bad("listed-missing", "list", "a listed model does not exist")
                elif b not in self.owner:
                    self.bad("listed-partial", "list", "%s is listed but is no complete model (%d bytes)"
                             % (os.path.basename(p), len(b)))
                if os.path.dirname(p) != self.dir_path(d):
                    self.bad("listed-foreign", "list", "%s is listed but not in this cache" % p)
            if not cleared:
                for p in sorted(before & self.must_listed(d)):
                    if p not in got:
                        self.bad("not-listed", "list", "a cached model is not listed (%d listed)" % len(got))
                        break
        finally:
            me.nofault -= 1

    def do_clear(self, me, op):
        d = op["d"]
        f0 = self.my_faults(me)
        # everything handed out from this cache may disappear from now on
        self.handed = {p: k for p, k in self.handed.items() if k[0] != d}
        self.clears[d] = self.clears.get(d, 0) + 1
        ks = [k for k in self.keys if k[0] == d]
        rec = self.begin(me, op, ks, d, clear=True)
        a = self.dir_arg(d)
        m = self.mod(me)
        self.s.event("call", me.op["id"], "clear", d)
        if a is None and op.get("default_dir", True):
            o = outcome(lambda: m.clear_model_cache())
        else:
            o = outcome(lambda: m.clear_model_cache(a or "~/.cml_wd_pytorch/models"))
        me.nofault += 1
        try:
            self.nchecks += 1
            excl = rec["excl"] and not [r for r in rec["others"] if r["keys"]]
            rec["excl"] = excl
            self.end(me, rec, o[0])
            self.s.event("return", me.op["id"], "clear", o[0], o[1] if o[0] == "exc" else "")
            if o[0] == "exc" and self.my_faults(me) == f0:
                self.bad("clear-failed", "clear", "clearing the cache failed: %s %s" % (o[1], o[2]))
            if o[0] == "ok" and excl and self.my_faults(me) == f0:
                left = [p for p in self.fs.snapshot() if p.startswith(self.dir_path(d) + "/")]
                if left:
                    self.bad("clear-incomplete", "clear", "%s left after clearing" % os.path.basename(left[0]))
            self.check_sentinels()
        finally:
            me.nofault -= 1

    def check_sentinels(self):
        snap = self.fs.snapshot()
        for p, v in self.sentinels.items():
            if snap.get(p) != v:
                self.bad("outside-touched", "contained", "%s was changed or removed" % p.replace(self.fs.root, ""))

    # -------------------------------------------------------------- recovery
    def final(self, me, plan):
        """Faults have stopped: a new process must get every model."""
        self.s.block(lambda: all(t.done for t in self.s.tasks if t is not me), what="final")
        me.nofault += 1
        self.probe_all(me)
        self.check_sentinels()
        for d in plan["dirs"]:
            for u in plan["urls"]:
                me.op = seams.new_op("final", [{"mode": "ok"}])
                o = outcome(lambda: self.call_get(me.proc.modules, d, u, False))
                self.nchecks += 1
                if o[0] == "exc":
                    self.bad("no-recovery", "recover", "after all faults a request for URL %d still fails: %s %s" % (u, o[1], o[2]))
                    continue
                p, own = self.content(o[1])
                if own is None:
                    self.bad("incomplete-file-returned", "complete", "after all faults URL %d still yields a damaged file" % u)
                elif own[0] != u:
                    self.bad("wrong-model-returned", "other", "URL %d answered with URL %d" % (u, own[0]))
                    self.bad("wrong-model-returned", "complete", "URL %d answered with URL %d" % (u, own[0]))
        me.nofault -= 1


class Alternating(CacheWorld):
    """Mostly plain cache calls; in some runs the models are loaded through get_model()."""
    p_load = 0.25

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        from . import w_c06
        self.load = w_c06.World(*a, **k)
        self.load.want = self.want

    def prepare(self):
        super().prepare()
        self.load.prepare()

    def plan(self, rng, tier):
        if rng.random() < self.p_load:
            p = self.load.plan(rng, tier)
            p["load"] = True
            return p
        return super().plan(rng, tier)

    def simplify(self, plan):
        return self.load.simplify(plan) if plan.get("load") else super().simplify(plan)

    def execute(self, plan, root):
        return self.load.execute(plan, root) if plan.get("load") else super().execute(plan, root)
