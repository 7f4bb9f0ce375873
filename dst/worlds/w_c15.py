"""C15: grid validation."""
import copy
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from .. import procs
from .base import pick_faults, outcome, op_fault
from .memworld import MemWorld, same, brief

V = "pycomlink.validation.validator"
T0 = pd.Timestamp("2024-07-01")


class Bag:
    """Plain attribute container."""


class Link:
    """What the validator needs of a CML object."""

    def __init__(self, sp):
        self.cml_id = sp["id"]
        self.coords = Bag()
        self.coords.lon_a, self.coords.lat_a, self.coords.lon_b, self.coords.lat_b = sp["xy"]
        t = pd.date_range(T0 + pd.Timedelta(minutes=sp["t0"]), periods=sp["n"], freq="1min", name="time")
        r = np.random.RandomState(sp["seed"])
        self.channel_1, self.channel_2 = Bag(), Bag()
        self.channel_1.data = pd.DataFrame({"tx": r.uniform(size=sp["n"])}, index=t)
        self.channel_2.data = pd.DataFrame({"tx": r.uniform(size=sp["n"])}, index=t)
        self.data = pd.DataFrame({"txrx_nf": r.uniform(size=sp["n"])}, index=t)
        if sp["form"] == "uns":
            self.data = self.data.iloc[r.permutation(sp["n"])]
        elif sp["form"] == "rev":
            self.data = self.data.iloc[::-1]
        elif sp["form"] == "dup":
            self.data = self.data.iloc[sorted(r.choice(sp["n"], sp["n"]))]
        elif sp["form"] == "nan":
            self.data.iloc[::3, 0] = np.nan
        elif sp["form"] == "cols":
            self.data["wet"] = r.uniform(size=sp["n"]) < 0.3
            self.data.index.name = None
        elif sp["form"] == "ends":                      # the channels cover different periods
            self.channel_1.data = self.channel_1.data.iloc[3:]
            self.channel_2.data = self.channel_2.data.iloc[:-4]
        elif sp["form"] == "ends2":
            self.channel_1.data = self.channel_1.data.iloc[:-2]
            self.channel_2.data = self.channel_2.data.iloc[6:]

    def get_coordinates(self):
        return self.coords


class World(MemWorld):
    modules = [V]
    quick = (6000, 55)
    npristine = 24
    real = [V, "poligrain intersection weights, xarray, pandas"]
    stub = ["CML objects: plain objects with coordinates, channels and data", "clock", "process interrupts, allocation failures"]
    assumptions = ["poligrain computes the intersection weights correctly", "links and reference data are changed only while nobody uses the validator"]
    rule = ("plans: 1-3 threads sharing 1-2 grid validators, 2-4 links (equal ids, equal paths, reversed paths, other periods, off the "
            "grid), 2-9 operations: time series, resampling, statistics, changes of link paths/periods and reference data, "
            "interrupts; non-trivial: a fault fired, calls overlapped or an object was used again")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        q = lambda: round(rng.uniform(8.1, 9.9), 3)
        p = lambda: round(rng.uniform(50.1, 51.9), 3)
        links = []
        for i in range(rng.choice([2, 2, 3, 4])):
            kind = rng.choice(["new", "new", "samepath", "rev", "off", "short"]) if links else "new"
            xy = [q(), p(), q(), p()]
            if kind == "samepath":
                xy = list(links[-1]["xy"])
            elif kind == "rev":
                xy = links[-1]["xy"][2:] + links[-1]["xy"][:2]
            elif kind == "off":
                xy = [30.0, 10.0, 31.0, 11.0]
            elif kind == "short":
                xy[2], xy[3] = xy[0] + 0.01, xy[1] + 0.01
            links.append({"id": rng.choice(["a", "a", "l%d" % i]), "xy": xy, "t0": rng.choice([0, 0, 5, 12, 300]), "n": rng.choice([8, 21, 31]),
                          "form": rng.choice(["", "", "", "uns", "rev", "dup", "nan", "cols", "ends", "ends2"]), "seed": rng.getrandbits(16)})
        objs = [{"nt": rng.choice([3, 5, 7]), "nx": rng.choice([3, 4, 4, 7]), "ny": rng.choice([3, 3, 4, 6]), "seed": rng.getrandbits(16), "nan": rng.random() < 0.2,
                 "step": rng.choice([5, 5, 10])} for _ in range(rng.choice([1, 1, 2]))]
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        for _ in range(rng.randint(2, 9)):
            k = rng.choices(["get", "res", "stats", "mut"], [10, 5, 3, 3])[0]
            op = {"k": k, "o": rng.randrange(len(objs)), "l": rng.randrange(len(links)), "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 14)], p_none=p_none)}
            if k == "get":
                op.update(var=rng.choice(["R", "R", "Z", "nope"] if rng.random() < 0.3 else ["R", "Z"]), mess=rng.random() < 0.3)
            elif k == "res":
                op.update(label=rng.choice(["right", "left", "right", "left", "mid"]), tz=rng.choice([None, None, "UTC"]), mess=rng.random() < 0.3)
            elif k == "stats":
                op.update(str=rng.random() < 0.8)
            else:
                op.update(what=rng.choice(["move", "period", "grid", "time", "data"]), by=rng.choice([0.2, -0.15]))
            rng.choice(tasks)["ops"].append(op)
        plan = {"tasks": tasks, "objs": objs, "links": links}
        plan.update(self.sched(rng, nt, line=(0.05, 0.2, 0.5), instr=0.2))
        return plan

    # -------------------------------------------------------------- fixture
    def setup(self, plan):
        self.links = [Link(sp) for sp in plan["links"]]
        self.ds, self.objs = [], []
        for o in plan["objs"]:
            r = np.random.RandomState(o["seed"])
            lon, lat = np.meshgrid(8.0 + np.arange(o["nx"]) * 2.0 / (o["nx"] - 1), 50.0 + np.arange(o["ny"]) * 2.0 / (o["ny"] - 1))
            R = r.gamma(1, 2, (o["nt"], o["ny"], o["nx"]))
            Z = r.gamma(1, 5, R.shape)
            if o["nan"]:
                R[r.uniform(size=R.shape) < 0.1] = np.nan
            t = pd.date_range(T0, periods=o["nt"], freq="%dmin" % o["step"], name="time")
            ds = xr.Dataset({"R": (("time", "y", "x"), R), "Z": (("time", "y", "x"), Z)},
                            coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
            self.ds.append(ds)
            self.objs.append(self.proc.modules[V].GridValidator(xr_ds=ds))
        self.writes = [[] for _ in self.objs]       # get calls: [call seq, return seq or None, took effect for sure, link copy, ds copy, var]
        self.seq = 0
        self.used = [0] * len(self.objs)

    def tick(self):
        self.seq += 1
        return self.seq

    def do(self, me, op):
        getattr(self, "op_" + op["k"])(me, op)

    def op_get(self, me, op):
        me.nofault += 1
        obj, link, ds = self.objs[op["o"]], self.links[op["l"]], self.ds[op["o"]]
        args = {"link": link, "ds": ds, "var": op["var"]}
        if self.used[op["o"]]:
            self.again += 1
        self.used[op["o"]] += 1
        w = [self.tick(), None, False, copy.deepcopy(link), copy.deepcopy(ds), op["var"]]
        self.writes[op["o"]].append(w)
        me.nofault -= 1
        o, e, fault, ov = self.checked(me, "get_time_series", lambda: obj.get_time_series(args["link"], args["var"]),
                                       lambda mods, a: mods[V].GridValidator(xr_ds=a["ds"]).get_time_series(a["link"], a["var"]), args, op["o"])
        me.nofault += 1
        w[1], w[2] = self.tick(), o[0] == "ok"
        if o[0] == "ok":
            self.against(o[1], w)
            if op["mess"]:
                self.user_scribbles(o, args, "get_time_series")
        elif e[0] == "exc" and not fault:
            self.writes[op["o"]].remove(w)          # it cannot have obtained anything
        me.nofault -= 1

    def against(self, df, w):
        """The weighted sum along the path, from its definition."""
        import poligrain as plg
        link, ds, var = w[3], w[4], w[5]
        c = link.get_coordinates()
        W = np.asarray(plg.spatial.calc_intersect_weights(c.lon_a, c.lat_a, c.lon_b, c.lat_b, ds.longitudes.values, ds.latitudes.values))
        t = ds.time.values
        sel = (t > link.channel_1.data.index.values[0]) & (t < link.channel_2.data.index.values[-1])
        v = np.nansum(ds[var].values[sel] * W, axis=(1, 2))
        if list(df.index.values) != list(t[sel]) or not np.allclose(df[var].values, v, rtol=1e-9, atol=1e-12):
            self.bad("wrong-value", "get_time_series returned %s for %s, along the path it is %s" % (brief(df[var].values), list(map(str, df.index[:3])), brief(v)))

    def op_res(self, me, op):
        me.nofault += 1
        obj, link = self.objs[op["o"]], self.links[op["l"]]
        df = link.data if op["tz"] is None else link.data.tz_localize(op["tz"])
        before = copy.deepcopy(df)
        c0 = self.tick()
        rid = me.op["id"]
        me.nofault -= 1
        self.s.event("call", rid, "resample")
        self.overlaps += bool(self.running)
        self.running[rid] = {"obj": op["o"], "overlap": False}
        o = outcome(lambda: obj.resample_to_grid_time_series(df, op["label"], op["tz"]) if op["tz"] else obj.resample_to_grid_time_series(df, op["label"]))
        me.nofault += 1
        del self.running[rid]
        c1 = self.tick()
        fault = op_fault(self.s, me)
        self.s.event("return", rid, o[0], o[1] if o[0] == "exc" else brief(o[1].values))
        self.nchecks += 1
        if not same(df, before):
            self.bad("input-modified", "resample_to_grid_time_series changed the data passed in")
        if not (fault and o[0] == "exc"):
            cand = [w for w in self.writes[op["o"]] if w[0] < c1]
            cand = [w for w in cand if not any(w[1] is not None and w2[2] and w2[1] is not None and w[1] < w2[0] and w2[1] < c0 for w2 in cand)]
            never = not any(w[2] and w[1] is not None and w[1] < c0 for w in self.writes[op["o"]])
            exp = []
            for w in cand:
                exp.append(self.alone(lambda m, w=w: self.resample(m, w, before, op)))
            if never:
                exp.append(self.alone(lambda m: m[V].GridValidator(xr_ds=self.ds[op["o"]].copy(deep=True)).resample_to_grid_time_series(before.copy(), op["label"], op["tz"])))
            if not any(o[0] == e[0] and (o[0] == "exc" or same(o[1], e[1], 1e-9, 1e-12, strict=False)) for e in exp):
                self.bad("resample-wrong", "resample returned %s, expected %s" % (brief(o[1:]), [brief(e[1:]) for e in exp][:2]))
            if o[0] == "ok" and cand and not never:
                ms = [self.periods(w, before, op) for w in cand]
                if not any(list(o[1].index) == list(m.index) and list(o[1].columns) == list(m.columns) and np.allclose(o[1].values.astype(float), m.values.astype(float), rtol=1e-9, equal_nan=True) for m in ms):
                    self.bad("resample-wrong", "resample returned means %s for %s, the periods of the last time series give %s for %s" % (
                        brief(o[1].values), list(map(str, o[1].index[:3])), brief(ms[-1].values), list(map(str, ms[-1].index[:3]))))
        if o[0] == "ok" and op["mess"]:
            self.user_scribbles(o, df, "resample")
        me.nofault -= 1

    @staticmethod
    def periods(w, df, op):
        """Means over the periods of the grid times that call obtained, from their definition."""
        link, t = w[3], w[4].time.values
        g = t[(t > link.channel_1.data.index.values[0]) & (t < link.channel_2.data.index.values[-1])]
        x = df.index.tz_localize(None).values if df.index.tz is not None else df.index.values
        rows = {}
        for i, v in enumerate(x):
            of = g[g >= v][:1] if op["label"] == "right" else g[g <= v][-1:]
            if len(of):
                rows.setdefault(of[0], []).append(i)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vals = [np.nanmean(df.values[rows[k]].astype(float), axis=0) for k in sorted(rows)]
        return pd.DataFrame(vals, index=pd.DatetimeIndex(sorted(rows)), columns=df.columns)

    def resample(self, m, w, df, op):
        g = m[V].GridValidator(xr_ds=w[4].copy(deep=True))
        g.get_time_series(copy.deepcopy(w[3]), w[5])
        return g.resample_to_grid_time_series(df.copy(), op["label"], op["tz"])

    def alone(self, fn):
        mods = self.fresh()
        procs.swap_in(mods)
        try:
            return outcome(lambda: fn(mods))
        finally:
            procs.swap_in(self.proc.modules)

    def op_stats(self, me, op):
        me.nofault += 1
        obj, link = self.objs[op["o"]], self.links[op["l"]]
        t = pd.date_range(T0, periods=6, freq="5min")
        ts = xr.DataArray(np.random.RandomState(op["l"]).uniform(size=6), dims="time", coords={"time": t.strftime("%Y-%m-%d %H:%M:%S") if op["str"] else t})
        args = {"link": link, "ts": ts}
        me.nofault -= 1
        self.checked(me, "calc_stats", lambda: obj.calc_stats(args["link"], args["ts"]),
                     lambda mods, a: mods[V].GridValidator().calc_stats(a["link"], a["ts"]), args, op["o"], keep=False)

    def op_mut(self, me, op):
        if self.running or any(w[1] is None for ws in self.writes for w in ws):
            return
        me.nofault += 1
        link, ds = self.links[op["l"]], self.ds[op["o"]]

        def fn():
            w = op["what"]
            if w == "move":
                link.coords.lon_a += op["by"]
                link.coords.lat_b -= op["by"]
            elif w == "period":
                for ch in (link.channel_1, link.channel_2):
                    ch.data = ch.data.shift(5, freq="1min")
            elif w == "grid":
                ds.R.values[...] *= 2.0
            elif w == "time":
                ds.Z.values[...] = ds.Z.values[::-1].copy()
            elif w == "data":
                link.data.iloc[:, 0] += 1.0
        self.user_changes_args(fn)
        me.nofault -= 1
