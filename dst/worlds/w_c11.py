"""C11: inverse distance interpolation."""
import numpy as np
import pandas as pd

from .base import pick_faults
from .memworld import MemWorld

IDW = "pycomlink.spatial.idw"
INT = "pycomlink.spatial.interpolator"


def brute(x, y, z, qx, qy, nnear, p, maxd):
    """IDW from the definition.  Also returns which results are free of ties."""
    out, sure = np.full(len(qx), np.nan), np.ones(len(qx), bool)
    maxd = np.inf if maxd is None else maxd
    for i in range(len(qx)):
        d = np.sqrt((x - qx[i]) ** 2 + (y - qy[i]) ** 2)
        order = np.argsort(d, kind="stable")
        k = [j for j in order if d[j] < maxd][:nnear]
        if not k:
            if np.isfinite(maxd) and len(d) and abs(d.min() - maxd) < 1e-9 * max(1, maxd):
                sure[i] = False
            continue
        # ties at the border of the neighbourhood, or at its rim
        if len(k) == nnear and len(order) > nnear and d[order[nnear]] - d[k[-1]] < 1e-9 * (1 + d[k[-1]]):
            sure[i] = False
        if np.any(np.abs(d - maxd) < 1e-9 * (1 + abs(maxd))) if np.isfinite(maxd) else False:
            sure[i] = False
        d0 = d[k[0]]
        if d0 < 1e-10:
            if sum(d[k] < 2e-10) > 1:
                sure[i] = False
            out[i] = z[k[0]]
            continue
        if d0 < 1e-9:
            sure[i] = False
        w = 1.0 / d[k] ** p
        out[i] = (w * z[k]).sum() / w.sum()
    return out, sure


class World(MemWorld):
    modules = [IDW, INT]
    quick = (6000, 50)
    real = [IDW, INT + " (IdwKdtreeInterpolator)", "scipy KD tree, numpy, numba code as plain Python"]
    assumptions = ["users change attributes of a shared interpolator only while nobody uses it",
                   "numba compiles the loops faithfully (they run as plain Python here)"]
    rule = ("plans: 1-3 threads sharing 1-2 interpolator objects, 2-9 operations: interpolations with points, values and grids "
            "from small pools (so that they recur), in-place changes of these arrays and of results, setting changes, calls that "
            "fail, interrupts; non-trivial: a fault fired, calls overlapped or an object was used again")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        single = rng.random() < 0.2         # one user, one object, one set of points and one grid
        if single:
            nt = 1
        race = nt > 1 and rng.random() < 0.3        # threads with different points share one object
        npts = [rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < 0.93 else rng.choice([25, 60, 150]) for _ in range(2)]
        gmax = 1 if rng.random() < 0.95 else 5
        pools = {"pts": [{"n": rng.choice(npts), "seed": rng.getrandbits(20), "kind": rng.choice(["rand", "rand", "int", "dup"])} for _ in range(1 if single else rng.choice([1, 2, 3]) if not race else 2)],
                 "grid": [{"kind": rng.choice(["float", "int", "res", "shifted", "one", "onpts"]), "nx": gmax * rng.choice([1, 2, 3, 4]), "ny": gmax * rng.choice([1, 2, 3]), "seed": rng.getrandbits(20)}
                          for _ in range(1 if single else rng.choice([1, 2, 3]))]}
        objs = []
        for _ in range(rng.choice([1, 1, 2]) if not race and not single else 1):
            objs.append({"k": rng.choice(["kd", "kd", "tree"]), "nnear": rng.choice([2, 3, 5, 8]), "p": rng.choice([1, 2, 2, 3]),
                         "nan": rng.random() < 0.85, "maxd": rng.choice([None, None, 0.5, 1.0, 2.5]), "pts": rng.randrange(len(pools["pts"])), "defaults": rng.random() < 0.15})
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        utm = rng.random() < 0.15                   # metres in a projection instead of small numbers
        if utm:
            pools.update(scale=1000, off=[500000, 5500000])
            for o in objs:
                o["maxd"] = o["maxd"] and o["maxd"] * 1000
        few = lambda l, n: [rng.choice(l) for _ in range(n)]
        nns, mds, epss = few([2, 2, 3, 5, 8, 20], rng.choice([1, 2, 4])), few([None, None, 0.5, 1.0, 1.0, 1.004, 2.5, 9.0], rng.choice([1, 2, 4])), few([0, 0, 0, 0.5], rng.choice([1, 2]))
        if not utm and rng.random() < 0.1:      # neighbours right at the maximum distance, which is changed a little
            mds = [1.0, 1.004, 1.0 + 1e-7]
            for v in pools["pts"] + pools["grid"]:
                v["kind"] = "int"
            for v in objs:
                v["k"] = rng.choice(["tree", "tree", "kd"])
        zpool = [rng.getrandbits(20) for _ in range(rng.choice([1, 2, 5]))]
        for _ in range(rng.randint(2, 9)):
            k = rng.choices(["call", "mut", "set"], [10, 10 if single else 4, 2])[0] if not race else "call"
            if k == "call":
                op = {"k": k, "o": rng.randrange(len(objs)), "pts": rng.randrange(len(pools["pts"])), "g": rng.randrange(len(pools["grid"])),
                      "z": rng.choice(zpool), "znan": rng.choice(["none", "none", "some", "some2", "most", "all", "int", "inf", "neg"]), "form": rng.choice(["array", "array", "list", "series"]),
                      "mess": rng.random() < 0.3, "swap": rng.random() < 0.15,
                      "bad": rng.choices([None, "len", "badz", "nnear1", "nanpt"], [20, 1, 1, 1, 1])[0] if not race else None,
                      "nnear": rng.choice(nns), "p": rng.choice([1, 2, 3]), "maxd": rng.choice(mds),
                      "eps": rng.choice(epss), "faults": [] if race else pick_faults(rng, [("line", ["interrupt", "nomem", "interrupt"], 120)], p_none=p_none)}
            elif k == "mut":
                op = {"k": k, "what": rng.choice(["x", "y", "z", "grid", "swapxy", "roll", "far", "far", "grid1", "grid1", "pt1", "pt1"] + single * 6 * ["grid1", "pt1"]), "i": rng.getrandbits(8), "pts": rng.randrange(len(pools["pts"])), "g": rng.randrange(len(pools["grid"])),
                      "by": rng.choice([0.25, 1.0, -0.5, 3.0])}
            else:
                op = {"k": k, "o": rng.randrange(len(objs)), "nnear": rng.choice([2, 3, 5, 8]), "p": rng.choice([1, 2, 3]), "maxd": rng.choice([None, 0.5, 1.0, 2.5])}
            if utm and op.get("maxd"):
                op["maxd"] *= 1000
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "objs": objs, "pools": pools}
        plan.update(self.sched(rng, nt, line=(0.01, 0.05, 0.2), instr=0.1))
        return plan

    # ---------------------------------------------------------------- fixture
    def setup(self, plan):
        self.plan_ = plan
        self.pts = {}
        self.grids = {}
        self.zs = {}
        self.objs = []
        for o in plan["objs"]:
            if o["defaults"]:
                o["nan"] = True
            self.objs.append(self.build(self.proc.modules, o, None))
        self.used = [0] * len(self.objs)

    def points(self, me, i):
        """Arrays belong to the task that uses them."""
        key = (me.idx, i)
        if key not in self.pts:
            sp = self.plan_["pools"]["pts"][i]
            self.pts[key] = self.frame(self.make_points(sp))
        return self.pts[key]

    def frame(self, xy):
        """Numbers from 0 to 5 in the coordinate system of the plan."""
        p = self.plan_["pools"]
        if "scale" not in p:
            return xy
        return [v * p["scale"] + o for v, o in zip(xy, p["off"])]

    @staticmethod
    def make_points(sp):
        r = np.random.RandomState(sp["seed"])
        n = sp["n"]
        if sp["kind"] == "int":
            x, y = r.randint(0, 5, n), r.randint(0, 5, n)
        else:
            x, y = r.uniform(0, 4, n), r.uniform(0, 4, n)
            if sp["kind"] == "dup" and n > 2:
                x[1], y[1] = x[0], y[0]
        return [x, y]

    def grid(self, me, i):
        key = (me.idx, i)
        if key not in self.grids:
            sp = self.plan_["pools"]["grid"][i]
            r = np.random.RandomState(sp["seed"])
            if sp["kind"] == "res":
                self.grids[key] = None
            elif sp["kind"] == "onpts":
                p = self.make_points(self.plan_["pools"]["pts"][0])
                self.grids[key] = self.frame([np.array(p[0], float).reshape(1, -1), np.array(p[1], float).reshape(1, -1)])
            elif sp["kind"] == "one":
                self.grids[key] = self.frame([np.array([[1.5]]), np.array([[2.25]])])
            else:
                xs, ys = np.arange(sp["nx"]), np.arange(sp["ny"])
                if sp["kind"] != "int":
                    xs, ys = xs + r.uniform(0, 1, sp["nx"]), ys + r.uniform(0, 1, sp["ny"])
                if sp["kind"] == "shifted":
                    xs = xs + 1.0
                self.grids[key] = self.frame(list(np.meshgrid(xs, ys)))
        return self.grids[key]

    def build(self, mods, o, X):
        if o["k"] == "kd":
            if o["defaults"]:
                return mods[INT].IdwKdtreeInterpolator()
            return mods[INT].IdwKdtreeInterpolator(nnear=o["nnear"], p=o["p"], exclude_nan=o["nan"], max_distance=o["maxd"])
        X = self.frame(self.make_points(self.plan_["pools"]["pts"][o["pts"]]))
        X = np.column_stack([np.asarray(X[0], float), np.asarray(X[1], float)])
        o["n"] = len(X)
        t = mods[IDW].Invdisttree(X)
        if mods is self.proc.modules:
            X += 3.0           # the caller reuses his array
        return t

    # -------------------------------------------------------------------- ops
    def do(self, me, op):
        if op["k"] == "mut":
            return self.mutate(me, op)
        spec = self.plan_["objs"][op["o"]]
        obj = self.objs[op["o"]]
        if op["k"] == "set":
            if spec["k"] == "kd" and not any(r["obj"] == op["o"] for r in self.running.values()):
                obj.nnear, obj.p, obj.max_distance = op["nnear"], op["p"], op["maxd"]
                spec.update(nnear=op["nnear"], p=op["p"], maxd=op["maxd"], defaults=False)
            return
        me.nofault += 1
        cur = dict(spec)
        if cur["k"] == "kd" and cur["defaults"]:
            cur.update(nnear=8, p=2, nan=True, maxd=None)
        if self.used[op["o"]]:
            self.again += 1
        self.used[op["o"]] += 1
        g = self.grid(me, op["g"])
        r = np.random.RandomState(op["z"])
        if cur["k"] == "kd":
            x, y = self.points(me, op["pts"])
        else:
            x = y = None
        n = len(x) if x is not None else cur["n"]
        z = r.uniform(0, 10, n)
        if op["znan"] == "neg":
            z = z - 5
        elif op["znan"] == "int":
            z = r.randint(0, 10, n)
        elif op["znan"] != "none":
            if not (cur["k"] == "tree"):
                if op["znan"] == "inf":
                    z[r.uniform(size=n) < 0.3] = np.inf
                elif op["znan"] == "some2":     # as many as with "some", but others
                    z[::-1][r.uniform(size=n) < 0.3] = np.nan
                else:
                    z[r.uniform(size=n) < {"some": 0.3, "most": 0.8, "all": 2.0}[op["znan"]]] = np.nan
        me.nofault -= 1
        if cur["k"] == "kd":
            self.call_kd(me, op, cur, obj, x, y, z, g)
        else:
            self.call_tree(me, op, cur, obj, z, g)

    def call_kd(self, me, op, cur, obj, x, y, z, g):
        me.nofault += 1
        if op["swap"]:
            x, y = y, x
        if op["form"] == "list":
            x, y = list(x), list(y)
        if op["form"] == "series":
            z = pd.Series(z, index=np.arange(len(z)) * 3 + 1)
        if op["bad"] == "len":
            z = z[:-1] if op["form"] != "series" else z.iloc[:-1]
        elif op["bad"] == "badz":
            z = np.array(["a"] * len(z))
        res = 1.3 * self.plan_["pools"].get("scale", 1)
        kw = {"resolution": res} if g is None else {"xgrid": g[0], "ygrid": g[1]}
        args = {"x": x, "y": y, "z": z, "kw": kw}
        if op["bad"] == "nanpt":
            args["x"] = np.array(x, float)
            args["x"][:1] = np.nan
        spec = dict(cur, defaults=False)
        me.nofault -= 1
        o, e, fault, ov = self.checked(
            me, "IdwKdtreeInterpolator", lambda: obj(args["x"], args["y"], args["z"], **args["kw"]),
            lambda mods, a: self.build(mods, spec, None)(a["x"], a["y"], a["z"], **a["kw"]), args, op["o"])
        me.nofault += 1
        if o[0] == "ok" and op["bad"] is None:
            xs, ys, zs = (np.asarray(args[k], float) for k in "xyz")
            if g is None:
                gx, gy = np.meshgrid(np.arange(xs.min() - res, xs.max() + res, res), np.arange(ys.min() - res, ys.max() + res, res))
            else:
                gx, gy = g
            v = np.asarray(o[1], float)
            if np.isnan(zs).all():
                if v.shape != gx.shape or not np.isnan(v).all():
                    self.bad("all-missing", "all values are missing, but the grid is not: %s" % v.ravel()[:6])
            elif v.shape == gx.shape and np.isinf(zs).any():
                pass                # no definition to compare with
            elif v.shape == gx.shape:
                if spec["nan"]:
                    ok = ~np.isnan(zs)
                    xs, ys, zs = xs[ok], ys[ok], zs[ok]
                b, sure = brute(xs, ys, zs, np.asarray(gx, float).ravel(), np.asarray(gy, float).ravel(), spec["nnear"], spec["p"], spec["maxd"])
                self.against(b, sure, v.ravel(), "grid")
            else:
                self.bad("wrong-value", "grid of shape %s returned for a grid of shape %s" % (v.shape, gx.shape))
        if o[0] == "ok" and op["mess"]:
            self.user_scribbles(o, args, "an interpolation")
        me.nofault -= 1

    def against(self, b, sure, v, what):
        for i in range(len(b)):
            if sure[i] and not (np.isnan(b[i]) and np.isnan(v[i])) and not abs(b[i] - v[i]) <= 1e-7 * (1 + abs(b[i])):
                self.bad("wrong-value", "%s point %d is %r, by definition %r" % (what, i, float(v[i]), float(b[i])))
                return

    def call_tree(self, me, op, cur, obj, z, g):
        me.nofault += 1
        if g is None:
            q = np.array(self.frame([1.25, 0.75]))
        else:
            key = (me.idx, op["g"], "q")
            if key not in self.grids:
                self.grids[key] = np.column_stack([np.asarray(g[0], float).ravel(), np.asarray(g[1], float).ravel()])
            q = self.grids[key]
        nn = 1 if op["bad"] == "nnear1" else op["nnear"]
        if op["bad"] in ("len", "badz"):
            z = z[:-1]
        kw = {"nnear": nn, "p": op["p"], "max_distance": op["maxd"], "eps": op["eps"]}
        args = {"q": q if op["form"] != "list" else [list(t) for t in np.atleast_2d(q)], "z": z, "kw": kw}
        me.nofault -= 1
        o, e, fault, ov = self.checked(me, "Invdisttree", lambda: obj(args["q"], args["z"], **args["kw"]),
                                       lambda mods, a: self.build(mods, dict(cur), None)(a["q"], a["z"], **a["kw"]), args, op["o"])
        me.nofault += 1
        if o[0] == "ok" and op["bad"] is None and op["eps"] == 0:
            px, py = self.frame(self.make_points(self.plan_["pools"]["pts"][cur["pts"]]))
            qq = np.atleast_2d(np.asarray(args["q"], float))
            b, sure = brute(np.asarray(px, float), np.asarray(py, float), np.asarray(z, float), qq[:, 0], qq[:, 1], nn, op["p"], op["maxd"])
            self.against(b, sure, np.atleast_1d(o[1]).ravel(), "query")
        if o[0] == "ok" and op["mess"]:
            self.user_scribbles(o, args, "a query")
        me.nofault -= 1

    def mutate(self, me, op):
        me.nofault += 1
        p = self.points(me, op["pts"])
        g = self.grid(me, op["g"])

        def fn():
            w = op["what"]
            if w == "x":
                p[0] += p[0].dtype.type(op["by"] if p[0].dtype.kind == "f" else 1)
            elif w == "y":
                p[1] -= p[1].dtype.type(op["by"] if p[1].dtype.kind == "f" else 1)
            elif w == "far":        # one end of the points moves
                i = int(abs(op["by"]) * 4) % 2
                p[i][np.argmax(p[i])] += 3
            elif w == "grid1" and g is not None:
                i = op["i"] % g[0].size
                g[0].ravel()[i] += 2
                q = self.grids.get((me.idx, op["g"], "q"))
                if q is not None:
                    q[i, 0] += 2
            elif w == "pt1":        # a single point moves
                v = p[op["i"] % 2]
                v[op["i"] // 2 % len(v)] += 2
            elif w == "roll":
                p[0][:] = np.roll(p[0], 1)
            elif w == "swapxy":
                t = p[0].copy()
                p[0][:] = p[1]
                p[1][:] = t
            elif w == "grid" and g is not None:
                g[0] += g[0].dtype.type(1)
                q = self.grids.get((me.idx, op["g"], "q"))
                if q is not None:
                    q += 1.0
        self.user_changes_args(fn)
        me.nofault -= 1
