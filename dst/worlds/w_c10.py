"""C10: reading cmlh5 files."""
import hashlib
import io
import math
import os
import pathlib

import numpy as np

from .. import procs, seams
from ..kernel import Proc, SimKill, SimAbort
from .base import BaseWorld, pick_faults, op_fault

IO = "pycomlink.io.cmlh5_to_xarray"
ATTRS = ["cml_id", "site_a_latitude", "site_a_longitude", "site_b_latitude", "site_b_longitude"]


def build(spec):
    """File contents from a spec: (bytes, model or None if the file is not a complete cmlh5 file)."""
    import h5py
    r = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
    b = io.BytesIO()
    model = {}
    dmg = spec.get("dmg")
    links = spec["links"]
    victim = (r.randint(len(links)) if links else 0)
    with h5py.File(b, "w", track_order=spec.get("order", False)) as f:
        f.attrs["file_format"] = "cmlH5"
        for li, nch in enumerate(links):
            cid = "%s%d" % (spec["prefix"], li * 9 + 3)
            g = f.create_group("cml_%d" % li if spec["gname"] else cid)
            at = {"cml_id": cid, "site_a_latitude": float(r.uniform(45, 50)), "site_a_longitude": float(r.uniform(8, 12)),
                  "site_b_latitude": float(r.uniform(45, 50)), "site_b_longitude": float(r.uniform(8, 12))}
            for k, v in at.items():
                if not (dmg == "noattr" and li == victim and k == ATTRS[spec["seed"] % 5]):
                    g.attrs[k] = v
            link = {"attrs": at, "channels": {}}
            T = spec["T"]
            t0 = 1500000000 + 60 * r.randint(1000)
            base_t = (t0 + 30.0 * np.arange(T)) if not spec["half"] else (t0 + 0.5 * np.arange(T))
            if spec.get("msec"):
                base_t = base_t + r.randint(1000) / 1000 + r.randint(1000) / 1000000
            vch = r.randint(nch) if nch else 0
            for ci in range(nch):
                name = "channel_%d" % (ci + 1)
                c = g.create_group(name)
                t = base_t.copy()
                if spec["jit"] and T > 2 and r.randint(3):      # any channel may lack samples
                    t = np.delete(t, r.randint(T))
                n = len(t)
                tx, rx = r.uniform(0, 20, n), r.uniform(-80, -40, n)
                if spec["nan"]:
                    rx[r.uniform(size=n) < 0.2] = np.nan
                if spec["nan"] == 2:        # nothing at all at some times
                    tx[np.isnan(rx)] = np.nan
                tx, rx = np.round(tx, 1).astype(spec["dt"]), np.round(rx, 1).astype(spec["dt"])
                freq, pol = float(r.uniform(1e10, 4e10)), "VH"[r.randint(2)]
                if spec.get("alike"):       # two channels of the same kind
                    freq, pol = 23.05e9, "V"
                hit = li == victim and ci == vch
                if not (dmg == "nofreq" and hit):
                    c.attrs["frequency"] = freq
                c.attrs["polarization"] = pol
                c.attrs["atpc"] = "NA"
                kw = dict(chunks=(max(1, n // 3),), compression="gzip") if spec["gz"] and n else {}
                for k, v in (("rx", rx), ("time", t), ("tx", tx)):
                    if dmg == "no" + k and hit:
                        continue
                    if dmg == "short" and hit and k != "time" and n > 1:
                        v = v[:-1]
                    c.create_dataset(k, data=v, **kw)
                link["channels"][name] = {"t": (t * 1e9).astype("datetime64[ns]"), "tsl": tx, "rsl": rx, "f": freq / 1e9, "p": pol}
            if dmg == "nochannels" and li == victim:
                for k in list(g):
                    del g[k]
            if dmg == "danglch" and li == victim:   # a link to data that are not there
                g["channel_%d" % (nch + 1)] = h5py.SoftLink("/nowhere/channel")
            model[cid] = link
        if dmg == "danglink":
            f["cml_99"] = h5py.SoftLink("/nowhere/cml") if spec["seed"] % 2 else h5py.ExternalLink("missing.h5", "/cml")
    data = b.getvalue()
    if dmg == "trunc":
        data = data[:int(len(data) * spec["frac"])]
    elif dmg == "garbage":
        data = b"<html>error</html>" * 40
    elif dmg == "empty":
        data = b""
    if dmg or not links:
        model = None
    return data, model


class World(BaseWorld):
    modules = [IO, "pycomlink.io.examples"]
    quick = (3000, 60)
    library_crashes = 0.002         # share of runs that may end in a crash of HDF5's own code
    real = [IO, "h5py and HDF5 (fileobj driver), xarray, numpy"]
    stub = ["the disk below HDF5 (read errors, interrupts and vanishing files on demand)", "clock"]
    assumptions = ["a writer replaces a file atomically (rename); HDF5 itself detects truncated files"]
    rule = ("plans: 1-3 threads, 2-8 operations on 1-2 files: reads (str or Path, with read errors, interrupts), "
            "replacing a file by another version (other data, same size and mtime, damaged, incomplete, truncated, gone) ; "
            "non-trivial: at least one read succeeded and a fault fired, a damaged file was read, or a file was read "
            "again after it had been replaced")

    def spec(self, rng, dmg_p):
        sp = {"links": [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([1, 1, 2, 3, 4]) if rng.random() < 0.98 else 15)], "T": rng.choice([1, 2, 3, 7, 20]) if rng.random() < 0.97 else rng.choice([400, 5000]),
              "prefix": rng.choice(["MY", "cml", "x"]), "gname": rng.random() < 0.5, "half": rng.random() < 0.2, "msec": rng.random() < 0.2, "jit": rng.random() < 0.25,
              "nan": rng.choice([0, 0, 0, 1, 2]), "alike": rng.random() < 0.3, "dt": rng.choice(["f8", "f8", "f4"]), "gz": rng.random() < 0.5,
              "order": rng.random() < 0.3, "seed": rng.getrandbits(30)}
        if rng.random() < dmg_p:
            sp["dmg"] = rng.choice(["trunc", "trunc", "garbage", "empty", "norx", "notx", "notime", "noattr", "nofreq", "short",
                                    "nochannels", "nolinks", "danglink", "danglch"])
            sp["frac"] = rng.choice([0.1, 0.5, 0.9, 0.99, 0.999])
            if sp["dmg"] == "short":
                sp["T"] = max(sp["T"], 3)
            if sp["dmg"] == "nolinks":
                sp["links"] = []
        return sp

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        nf = rng.choice([1, 1, 2])
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.3, 0.6, 0.95])
        dmg = rng.choice([0.0, 0.2, 0.5])
        for _ in range(rng.randint(2, 8)):
            k = rng.choices(["read", "write", "rm"], [10, 4, 0.5])[0]
            op = {"k": k, "f": rng.randrange(nf)}
            if k == "read":
                op["path"] = rng.random() < 0.3
                op["hold"] = rng.random() < 0.4
                op["mess"] = rng.random() < 0.3
                op["faults"] = pick_faults(rng, [("h5.read", ["EIO", "EIO", "ESTALE", "interrupt", "nomem"], 60), ("h5.open", ["EMFILE", "EACCES"], 1),
                                                 ("line", ["interrupt", "nomem"], 60)], p_none=p_none)
            elif k == "write":
                op["spec"] = self.spec(rng, dmg)
                op["same"] = rng.random() < 0.4      # same layout (size) as before, other values
                op["keep_mtime"] = rng.random() < 0.5
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "init": [self.spec(rng, dmg * 0.5) for _ in range(nf)]}
        specs = plan["init"] + [op["spec"] for t in tasks for op in t["ops"] if op["k"] == "write"]
        if any(sp["order"] and len(sp["links"]) > 8 for sp in specs):
            # HDF5 itself crashes if the disk fails while it walks through a large ordered group
            for t in tasks:
                for op in t["ops"]:
                    if op.get("faults"):
                        op["faults"] = [f for f in op["faults"] if f["site"] != "h5.read"]
        plan.update(self.sched(rng, nt, line=(0.01, 0.05, 0.2), instr=0.05))
        return plan

    # -------------------------------------------------------------------- run
    def execute(self, plan, root):
        import h5py
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        s = self.s = self.sim(plan)
        self.h5 = h5py
        s.pinned = h5py._objects.phil._is_owned
        self.root = root
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.reads = self.damaged = self.reread = 0
        self.proc = Proc(s, "p")
        self.proc.modules = procs.new_instance(self.modules)
        self.vers = []              # per file: list of (sha, model)
        self.specs = list(plan["init"])
        self.cur = [None] * len(self.specs)
        self.held = []
        self.mtime = 1600000000
        for i, sp in enumerate(plan["init"]):
            self.vers.append([])
            self.put(i, sp, False)
        self.patch()
        for ti, t in enumerate(plan["tasks"]):
            s.spawn(self.proc, lambda me, t=t: self.body(me, t), "t%d" % ti)
        s.run()
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks,
                           nontrivial=self.reads > 0 and bool(self.damaged or self.reread or sum(s.fired.values())))

    def path(self, i):
        return os.path.join(self.root, "data%d.h5" % i)

    def put(self, i, spec, keep_mtime):
        data, model = build(spec)
        tmp = self.path(i) + ".new"
        with io.open(tmp, "wb") as f:
            f.write(data)
        if not keep_mtime:
            self.mtime += 60
        os.utime(tmp, (self.mtime, self.mtime))
        os.replace(tmp, self.path(i))
        self.specs[i] = spec
        self.cur[i] = hashlib.sha256(data).hexdigest()
        self.vers[i].append((self.cur[i], model))
        if model is None:
            self.damaged += 1

    def patch(self):
        h5py, world = self.h5, self
        real = h5py.File

        class Raw(io.RawIOBase):
            def __init__(self, path):
                self.f = io.open(path, "rb", buffering=0)

            def readable(self):
                return True

            def seekable(self):
                return True

            def writable(self):
                return False

            def seek(self, *a):
                return self.f.seek(*a)

            def tell(self):
                return self.f.tell()

            def readinto(self, b):
                # HDF5 holds a global lock here: faults, but no thread switch
                s = world.s
                me = s.current()
                if me is not None and not me.nofault:
                    s.tick(me, 77, len(b))
                    k = s._fault(me, "h5.read")
                    if k == "EIO":
                        raise OSError(5, "Input/output error (simulated)")
                    if k == "ESTALE":
                        raise OSError(116, "Stale file handle (simulated)")
                n = 0
                mv = memoryview(b).cast("B")
                while n < len(mv):
                    k = self.f.readinto(mv[n:])
                    if not k:
                        mv[n:] = bytes(len(mv) - n)      # beyond the end: zeros, as HDF5's own driver
                        break
                    n += k
                return len(mv)

        class File(real):
            def __init__(self, name=None, mode="r", *a, **kw):
                me = world.s.current()
                p = os.fspath(name) if isinstance(name, (str, bytes, os.PathLike)) else name
                if me is None or not isinstance(p, str) or not p.startswith(world.root):
                    return real.__init__(self, name, mode, *a, **kw)
                k = world.s.seam("h5.open", mode)
                if k:
                    raise OSError({"EMFILE": 24, "EACCES": 13}[k], "simulated", p)
                if mode not in ("r",):
                    # a writing mode: HDF5's own driver on the real file, so that damage shows
                    return real.__init__(self, name, mode, *a, **kw)
                if not os.path.isfile(p):
                    raise FileNotFoundError(2, "Unable to open file (simulated)", p)
                kw.pop("driver", None)
                raw = Raw(p)
                real.__init__(self, raw, "r")
                me.op.setdefault("ids", []).append(self.id.id)
        File.__name__ = "File"
        h5py.File = File
        from h5py import _hl
        _hl.files.File = real
        self.realfile = real

    def bad(self, cls, msg):
        self.viol.append({"class": cls, "msg": msg})

    def body(self, me, t):
        for i, op in enumerate(t["ops"]):
            me.op = {"id": "%d.%d" % (me.idx, i)}
            me.counts, me.faults = {}, list(op.get("faults") or [])
            self.s.seam("op", op["k"])
            self.nops += 1
            if op["k"] == "read":
                self.read(me, op)
            elif op["k"] == "write":
                me.nofault += 1
                sp = dict(self.specs[op["f"]], seed=op["spec"]["seed"]) if op["same"] else op["spec"]
                if op["same"]:
                    sp.pop("dmg", None)
                    if not sp["links"]:
                        sp["links"] = [2]
                self.put(op["f"], sp, op["keep_mtime"])
                self.s.event("write", op["f"], len(self.vers[op["f"]]), sp.get("dmg"))
                me.nofault -= 1
            elif os.path.exists(self.path(op["f"])):
                os.unlink(self.path(op["f"]))
                self.cur[op["f"]] = None
                self.vers[op["f"]].append((None, None))
                self.damaged += 1

    def read(self, me, op):
        i = op["f"]
        v0 = len(self.vers[i])
        n0 = len(self.s.log)
        arg = pathlib.Path(self.path(i)) if op["path"] else self.path(i)
        self.s.event("call", me.op["id"], i)
        exc = None
        try:
            res = self.proc.modules[IO].read_cmlh5_file_to_xarray(arg)
            ok = True
        except (SimKill, SimAbort):
            raise
        except BaseException as e:
            ok, res = False, (type(e).__name__, str(e)[:200])
            exc = e
        me.nofault += 1
        self.nchecks += 1
        if op["hold"]:
            self.held.append(exc)
        exc = None
        fault = op_fault(self.s, me)
        self.s.event("return", me.op["id"], "ok" if ok else res[0])
        vers = self.vers[i][v0 - 1:]
        if v0 > 1:
            self.reread += 1
        # --- result
        if ok:
            self.reads += 1
            why = []
            for sha, model in vers:
                if model is None:
                    sp_ok = isinstance(res, list) and len(res) == 0 and sha is not None
                    if sp_ok and not self.specs[i]["links"]:
                        break
                    why.append("the file is damaged or incomplete, but reading it did not fail")
                    continue
                w = self.differs(res, model)
                if w is None:
                    break
                why.append(w)
            else:
                self.bad("wrong-content" if vers[-1][1] is not None else "damaged-accepted", why[-1])
            if op["mess"]:
                for ds in res:
                    try:
                        ds["rsl"].values[:] = -999.0
                    except Exception:
                        pass
        elif not fault and len(vers) == 1 and vers[0][1] is not None:
            self.bad("healthy-read-failed", "reading an intact file failed: %s %s" % res)
        # --- file handle and file
        h5py = self.h5
        mine = set(me.op.get("ids", []))
        if mine:
            left = [x for x in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)]
            # an asynchronous exception that hits the with statement itself is Python's, not ours
            late = any(e[2] == "fault" and e[3] == me.idx and e[4] == "line" for e in self.s.log[n0:])
            if any(x.id in mine for x in left) and not late:
                self.bad("left-open", "the file is still open after the call %s" % ("returned" if ok else "raised"))
            del left
        if self.cur[i] is not None:
            with io.open(self.path(i), "rb") as f:
                if hashlib.sha256(f.read()).hexdigest() != self.cur[i]:
                    self.bad("file-modified", "reading changed the file")
        elif os.path.exists(self.path(i)):
            self.bad("file-modified", "reading created the file")
            os.unlink(self.path(i))
        me.nofault -= 1

    def differs(self, res, model):
        """None if the result is exactly the content of the file."""
        try:
            if len(res) != len(model):
                return "%d of %d links returned" % (len(res), len(model))
            seen = set()
            for ds in res:
                cid = str(ds["cml_id"].values)
                if cid not in model or cid in seen:
                    return "link %s %s" % (cid, "twice" if cid in seen else "does not exist")
                seen.add(cid)
                link = model[cid]
                for k in ATTRS[1:]:
                    if float(ds[k].values) != link["attrs"][k]:
                        return "%s of link %s is wrong" % (k, cid)
                if sorted(str(x) for x in np.atleast_1d(ds["channel_id"].values)) != sorted(link["channels"]):
                    return "link %s has channels %s, expected %s" % (cid, list(np.atleast_1d(ds["channel_id"].values)), sorted(link["channels"]))
                a = link["attrs"]
                if abs(float(np.asarray(ds["length"].values).ravel()[0]) / self.dist(a) - 1) > 0.02:
                    return "length of link %s is wrong" % cid
                alltimes = set()
                for name, c in link["channels"].items():
                    x = ds.sel(channel_id=name)
                    tm = [self.us(t) for t in ds["time"].values]
                    pos = {t: k for k, t in enumerate(tm)}
                    if len(pos) != len(tm):
                        return "link %s: duplicated times" % cid
                    ct = [self.us(t) for t in c["t"]]
                    alltimes |= set(ct)
                    for var in ("tsl", "rsl"):
                        v = x[var].values
                        exp = np.full(len(tm), np.nan)
                        for t, val in zip(ct, c[var]):
                            if t not in pos:
                                return "link %s %s: sample at %s us lost" % (cid, name, t)
                            exp[pos[t]] = val
                        if not np.array_equal(np.asarray(v, dtype="f8"), exp, equal_nan=True):
                            return "link %s %s: %s differs from the file" % (cid, name, var)
                    if not math.isclose(float(x["frequency"].values), c["f"], rel_tol=1e-9) or str(x["polarization"].values) != c["p"]:
                        return "link %s %s: wrong frequency or polarization" % (cid, name)
                if alltimes != set(self.us(t) for t in ds["time"].values):
                    return "link %s: times that are not in the file" % cid
        except Exception as e:
            return "unusable result: %s %s" % (type(e).__name__, e)
        return None

    @staticmethod
    def us(t):
        """Microseconds: a float64 of seconds since 1970 does not hold more."""
        return round(int(t.astype("datetime64[ns]").astype("int64")) / 1000)

    @staticmethod
    def dist(a):
        p1, p2 = math.radians(a["site_a_latitude"]), math.radians(a["site_b_latitude"])
        dl = math.radians(a["site_b_longitude"] - a["site_a_longitude"])
        h = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2
        return 2 * 6371.0 * math.asin(math.sqrt(h))
