"""C12: ordinary kriging."""
import copy

import numpy as np
import pandas as pd

from .base import pick_faults, outcome
from .memworld import MemWorld, same
from .. import procs

INT = "pycomlink.spatial.interpolator"
DEF = {"sill": 0.9, "range": 1, "nugget": 0.1}


class World(MemWorld):
    modules = [INT]
    quick = (5000, 55)
    real = [INT + " (OrdinaryKrigingInterpolator, PointsToGridInterpolator, clim_var_param)", "pykrige, numpy, pandas"]
    assumptions = ["users change settings of a shared interpolator only while nobody uses it"]
    rule = ("plans: 1-3 threads sharing 1-3 kriging objects (default and own settings), 2-8 operations: maps for points, values "
            "and grids from small pools, in-place changes of arrays, settings and results, climatological variograms, failing calls, interrupts; non-trivial: "
            "a fault fired, calls overlapped or an object was used again")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        pts = [{"n": rng.choice([2, 3, 4, 6, 9]) if rng.random() < 0.93 else rng.choice([15, 30]), "seed": rng.getrandbits(20)} for _ in range(rng.choice([1, 2, 3]))]
        grid = [{"kind": rng.choice(["float", "int", "res", "res2", "one"]), "nx": rng.choice([1, 2, 3, 3, 7]), "ny": rng.choice([1, 2, 2, 5]), "seed": rng.getrandbits(20)}
                for _ in range(rng.choice([1, 2, 3]))]
        objs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            d = rng.random() < 0.5
            objs.append({"def": d, "model": rng.choice(["spherical", "spherical", "exponential", "gaussian"]), "sill": rng.choice([0.9, 2.0]), "range": rng.choice([1, 3.0]),
                         "nugget": rng.choice([0.1, 0.0, 0.3]), "aslist": rng.random() < 0.2, "nan": rng.random() < 0.9, "ncp": rng.choice([None, None, 2, 3]),
                         "backend": rng.choice(["C", "loop"]), "weight": rng.random() < 0.5})
            if d:
                objs[-1]["model"] = "spherical"
            elif rng.random() < 0.25:       # the variogram is fitted to the values of every call
                objs[-1].update(fit=True, nlags=rng.choice([100, 6]))
            if objs[-1]["ncp"]:     # pykrige's C code crashes if there are fewer points than that
                objs[-1]["backend"] = "loop"
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        zpool = [rng.getrandbits(20) for _ in range(rng.choice([1, 2, 3]))]
        for _ in range(rng.randint(2, 8)):
            k = rng.choices(["call", "mut", "set", "clim"], [10, 3, 2, 2])[0]
            if k == "call":
                op = {"k": k, "o": rng.randrange(len(objs)), "pts": rng.randrange(len(pts)), "g": rng.randrange(len(grid)), "z": rng.choice(zpool),
                      "znan": rng.choice(["none", "none", "some", "most", "all", "neg", "big"]), "mess": rng.random() < 0.3, "lists": rng.random() < 0.2,
                      "bad": rng.choices([None, "len", "badz", "nogrid"], [20, 1, 1, 1])[0],
                      "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 25)], p_none=p_none)}
            elif k == "mut":
                op = {"k": k, "what": rng.choice(["x", "y", "grid", "roll", "pt1", "grid1"]), "i": rng.getrandbits(8), "pts": rng.randrange(len(pts)), "g": rng.randrange(len(grid)), "by": rng.choice([0.25, 1.0])}
            elif k == "clim":
                op = {"k": k, "o": rng.randrange(len(objs)), "date": rng.choice(["20130404", "20240101", "2024-07-31", "2024-12-31 12:00"]),
                      "hours": rng.choice([0.25, 0.25, 1, 24]), "use": rng.random() < 0.5, "mess": rng.random() < 0.4,
                      "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 6)], p_none=p_none)}
            else:
                op = {"k": k, "o": rng.randrange(len(objs)), "sill": rng.choice([0.5, 4.0]), "range": rng.choice([0.5, 6.0]), "nugget": rng.choice([0.05, 0.2]), "ncp": rng.choice([None, 2, 3, 5]), "how": rng.choice(["inplace", "inplace", "replace", "replace", "ncp", "model"])}
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "objs": objs, "pts": pts, "grid": grid}
        plan.update(self.sched(rng, nt, line=(0.05, 0.2, 0.5), instr=0.2))
        return plan

    def setup(self, plan):
        self.plan_ = plan
        self.pts, self.grids = {}, {}
        self.cfg = []
        self.objs = []
        self.passed = []
        for o in plan["objs"]:
            c = dict(DEF) if o["def"] else {"sill": o["sill"], "range": o["range"], "nugget": o["nugget"]}
            self.cfg.append(c)
            vp = None if o["def"] else (dict(c) if not o["aslist"] else [c["sill"], c["range"], c["nugget"]])
            self.objs.append(self.build(self.proc.modules, o, vp))
            if not o["def"] and not o.get("fit"):
                self.passed.append((vp, copy.deepcopy(vp)))
        self.used = [0] * len(self.objs)

    def build(self, mods, o, vp):
        kw = {"exclude_nan": o["nan"], "n_closest_points": o["ncp"], "backend": o["backend"]}
        if not o["def"]:
            kw.update(weight=o["weight"])
        if not o["def"] or o["model"] != "spherical":
            kw["variogram_model"] = o["model"]
        if o.get("fit"):
            kw.update(variogram_parameters=None, nlags=o["nlags"])
        elif vp is not None:
            kw["variogram_parameters"] = vp
        return mods[INT].OrdinaryKrigingInterpolator(**kw)

    def points(self, me, i):
        key = (me.idx, i)
        if key not in self.pts:
            sp = self.plan_["pts"][i]
            r = np.random.RandomState(sp["seed"])
            self.pts[key] = [r.uniform(0, 4, sp["n"]), r.uniform(0, 4, sp["n"])]
        return self.pts[key]

    def grid(self, me, i):
        key = (me.idx, i)
        if key not in self.grids:
            sp = self.plan_["grid"][i]
            r = np.random.RandomState(sp["seed"])
            if sp["kind"].startswith("res"):
                self.grids[key] = {"res": 1.7, "res2": 2.4}[sp["kind"]]
            elif sp["kind"] == "one":
                self.grids[key] = [np.array([[1.5]]), np.array([[2.25]])]
            else:
                xs, ys = np.arange(sp["nx"]), np.arange(sp["ny"])
                if sp["kind"] == "float":
                    xs, ys = xs + r.uniform(0, 1, sp["nx"]), ys + r.uniform(0, 1, sp["ny"])
                self.grids[key] = list(np.meshgrid(xs, ys))
        return self.grids[key]

    def do(self, me, op):
        if op["k"] == "mut":
            me.nofault += 1
            p, g = self.points(me, op["pts"]), self.grid(me, op["g"])

            def fn():
                if op["what"] == "x":
                    p[0] += op["by"]
                elif op["what"] == "y":
                    p[1] += op["by"]
                elif op["what"] == "roll":
                    p[0][:] = np.roll(p[0], 1)
                elif op["what"] == "pt1":
                    v = p[op["i"] % 2]
                    v[op["i"] // 2 % len(v)] += op["by"]
                elif op["what"] == "grid1":
                    if isinstance(g, list):
                        g[0].ravel()[op["i"] % g[0].size] += 2
                elif isinstance(g, list):
                    g[0] += g[0].dtype.type(1)
            self.user_changes_args(fn)
            me.nofault -= 1
            return
        if op["k"] == "clim":
            return self.clim(me, op)
        o = op["o"]
        spec, obj, cfg = self.plan_["objs"][o], self.objs[o], self.cfg[o]
        if op["k"] == "set":
            if any(r["obj"] == o for r in self.running.values()):
                return
            if op["how"] == "ncp":
                if spec["backend"] == "loop":
                    obj.n_closest_points = spec["ncp"] = op["ncp"]
                return
            if op["how"] == "model":
                obj.variogram_model = spec["model"] = {"spherical": "exponential"}.get(spec["model"], "spherical")
                return
            spec.pop("fit", None)
            cfg.update(sill=op["sill"], range=op["range"], nugget=op["nugget"])
            if op["how"] == "inplace" and isinstance(obj.variogram_parameters, dict):
                mine = [v for v in self.passed if v[0] is obj.variogram_parameters]
                obj.variogram_parameters["sill"] = op["sill"]
                obj.variogram_parameters["range"] = op["range"]
                obj.variogram_parameters["nugget"] = op["nugget"]
                for v in mine:      # the object shares the caller's dict: the user changed it himself
                    self.passed.remove(v)
            else:
                obj.variogram_parameters = dict(cfg)
            return
        me.nofault += 1
        if self.used[o]:
            self.again += 1
        self.used[o] += 1
        x, y = self.points(me, op["pts"])
        g = self.grid(me, op["g"])
        r = np.random.RandomState(op["z"])
        z = r.uniform(0, 10, len(x))
        if op["znan"] == "neg":     # temperatures, residuals: a map of anything
            z -= 5
        elif op["znan"] == "big":
            z *= 30
        elif op["znan"] != "none":
            z[r.uniform(size=len(x)) < {"some": 0.3, "most": 0.8, "all": 2.0}[op["znan"]]] = np.nan
        if op["bad"] == "len":
            z = z[:-1]
        elif op["bad"] == "badz":
            z = np.array(["a"] * len(z))
        kw = {"resolution": g} if not isinstance(g, list) else {"xgrid": g[0], "ygrid": g[1]}
        if op["bad"] == "nogrid":
            kw = {}
        args = {"x": list(x) if op["lists"] else x, "y": list(y) if op["lists"] else y, "z": z, "kw": kw}
        cfg = dict(cfg)
        extra = {}

        def oracle(mods, a):
            f = self.build(mods, dict(spec), dict(cfg))
            v = f(a["x"], a["y"], a["z"], **a["kw"])
            extra["obj"] = f
            return v
        me.nofault -= 1
        out, e, fault, ov = self.checked(me, "OrdinaryKrigingInterpolator", lambda: obj(args["x"], args["y"], args["z"], **args["kw"]),
                                         oracle, args, o, rtol=1e-7, atol=1e-9)
        me.nofault += 1
        for have, was in self.passed:
            if not same(have, was):
                self.bad("settings-modified", "the variogram settings of the caller were changed to %r" % (have,))
        if not any(r["obj"] == o for r in self.running.values()) and not ov:
            if not (obj.variogram_parameters is None if spec.get("fit") else self.same_cfg(obj.variogram_parameters, cfg)):
                self.bad("settings-modified", "variogram settings %r of the object became %r" % (cfg, obj.variogram_parameters))
        if out[0] == "ok" and op["bad"] is None:
            v = np.asarray(out[1], float)
            zz = np.asarray(z, float)
            if isinstance(g, list):
                shape = g[0].shape
            else:
                shape = (len(np.arange(min(y) - g, max(y) + g, g)), len(np.arange(min(x) - g, max(x) + g, g)))
            if v.shape != shape:
                self.bad("wrong-grid", "map of shape %s for a grid of shape %s" % (v.shape, shape))
            if np.isnan(zz).all():
                if not np.isnan(v).all():
                    self.bad("all-missing", "all values are missing, but the map is not: %s" % v.ravel()[:6])
            elif spec["nan"] and np.isnan(zz).any():
                ok = ~np.isnan(zz)
                if isinstance(g, list):
                    kw2 = kw
                else:
                    gx, gy = np.meshgrid(np.arange(min(x) - g, max(x) + g, g), np.arange(min(y) - g, max(y) + g, g))
                    kw2 = {"xgrid": gx, "ygrid": gy}
                mods = self.fresh()
                procs.swap_in(mods)
                e2 = outcome(lambda: self.build(mods, dict(spec), dict(cfg))(np.asarray(x)[ok], np.asarray(y)[ok], zz[ok], **kw2))
                procs.swap_in(self.proc.modules)
                if e2[0] != "ok" or not same(v, np.asarray(e2[1], float), 1e-7, 1e-9, strict=False):
                    self.bad("missing-values-used", "a map with missing values differs from the map without these points")
            if not ov and "obj" in extra:
                f = extra["obj"]
                for n in ("xgrid", "ygrid", "zgrid") + (() if np.isnan(zz).all() else ("sigma",)):
                    if hasattr(f, n) and (not hasattr(obj, n) or not same(getattr(obj, n), getattr(f, n), 1e-7, 1e-9, strict=False)):
                        self.bad("wrong-grid", "attribute %s after the call is not that of a fresh object" % n)
        if out[0] == "ok" and op["mess"]:
            self.user_scribbles(out, args, "a kriging call")
        me.nofault -= 1

    def clim(self, me, op):
        """climatological variogram parameters, which a user may go on with as he likes"""
        args = {"date_str": op["date"], "time_scale_hours": op["hours"]}
        out, e, fault, ov = self.checked(me, "clim_var_param", lambda: self.proc.modules[INT].clim_var_param(**args),
                                         lambda mods, a: mods[INT].clim_var_param(**a), args, "clim", rtol=1e-9, atol=1e-9,
                                         keep=not (op["use"] or op["mess"]))
        if out[0] != "ok":
            return
        me.nofault += 1
        have = dict(out[1])
        day, h = pd.Timestamp(op["date"]).dayofyear, op["hours"]
        sill = (0.84 * h ** -0.25 + 0.2 * h ** -0.37 * np.cos(2 * np.pi / 365 * (day - 162 * h ** -0.03))) ** 4
        reach = (15.51 * h ** 0.09 + 2.06 * h ** -0.12 * np.cos(2 * np.pi / 365 * (day - 7.37 * h ** 0.22))) ** 4 / 1000
        want = {"sill": sill, "range": reach, "nugget": 0.1 * sill}
        if not same(have, want, 1e-6, 1e-9, strict=False):
            self.bad("wrong-climatology", "variogram parameters for %s, %s h: %r instead of %r" % (op["date"], h, have, want))
        o = op["o"]
        if op["use"] and not any(r["obj"] == o for r in self.running.values()):
            self.plan_["objs"][o].pop("fit", None)
            self.cfg[o].clear()
            self.cfg[o].update(have)
            self.objs[o].variogram_parameters = out[1]
        elif op["mess"]:
            out[1]["sill"] *= 2
            out[1].pop("nugget")
        me.nofault -= 1

    @staticmethod
    def same_cfg(vp, cfg):
        if isinstance(vp, dict):
            return vp == cfg
        return list(vp) == [cfg["sill"], cfg["range"], cfg["nugget"]]
