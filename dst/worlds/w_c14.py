"""C14: nearby-link processing on shared network data."""
import numpy as np
import pandas as pd
import xarray as xr

from .base import pick_faults
from .memworld import MemWorld

WD, RR = "pycomlink.processing.wet_dry.nearby_wetdry", "pycomlink.processing.nearby_rain_retrival"
SPEC = {
    "wetdry": {"radius": [None, 4, 8, 15, 40], "thresh_median_P": [None, -0.5], "thresh_median_PL": [None, -0.2], "min_links": [1, 2, 3, None], "interval": [15, 30],
               "timeperiod": [1, 2], "min_hours": [0.5, 1]},
    "pref": {"n_average_dry": [None, 2, 5], "min_periods": [None, 1, 2]},
    "correct": {},
    "rain": {"waa_max": [None, 0.5], "alpha": [None, 0.8], "F_value_threshold": [-32.5, -5.0, "none", None], "ab": [0, 0, 1, 2], "a_b_approximation": [None, "ITU_2003"],
             "L": [0, 1]},
    "dist": {"sub": [0, 0, 1], "form": ["list", "np", "da"]},
}
WEIGHT = {"wetdry": 6, "dist": 2, "pref": 2, "correct": 2, "rain": 3}


class World(MemWorld):
    modules = [WD, RR]
    quick = (5000, 90)
    npristine = 12
    max_steps = 2000000
    real = [WD, RR, "pycomlink.processing.{k_R_relation,xarray_wrapper}, pycomlink.spatial.helper", "xarray, numpy, bottleneck, tqdm (without its monitor thread)"]
    assumptions = ["callers change shared arrays only while nobody uses them"]
    rule = ("plans: 1-3 threads sharing one network (2-7 links, 3-14 time steps) and one distance matrix, 2-7 calls of the five "
            "steps with parameters from small pools (consecutive calls differ in few), in-place changes of shared data and of "
            "results while idle, failing calls, interrupts; non-trivial: a fault fired, calls overlapped or a step was used again")

    def prepare(self):
        super().prepare()
        import tqdm
        tqdm.tqdm.monitor_interval = 0

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        net = {"n": rng.choice([2, 4, 4, 5, 5, 7]) if rng.random() < 0.97 else 12, "T": rng.choice([3, 6, 10, 14]) if rng.random() < 0.97 else 120, "seed": rng.getrandbits(20), "nan": rng.choice([0, 0.1, 0.4]),
               "rain": rng.choice([0.2, 0.5, 0.8]), "far": rng.choice([0, 1, 2]), "ids": rng.choice(["str", "int"]), "order": rng.choice(["ct", "tc"]),
               "where": rng.choice(["", "", "", "east", "south", "same", "nan"]), "dead": rng.choice([None, None, "all", "but1"]), "dtype": rng.choice(["f8", "f8", "f8", "f4"]),
               "wetkind": rng.choice(["nan", "nan", "float", "bool", "dry"])}
        names = list(SPEC)
        hot = rng.choices(names, [WEIGHT[n] for n in names], k=rng.choice([1, 2, 3]))
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        prev = {}
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.2:
                op = {"k": "mut", "what": rng.choice(["pmin", "dist", "wet", "length", "site"]), "by": rng.choice([0.5, -3.0])}
            else:
                fn = rng.choice(hot)
                if fn in prev and rng.random() < 0.8:
                    par = dict(prev[fn])
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        if par:
                            key = rng.choice(sorted(par))
                            par[key] = rng.choice(SPEC[fn][key])
                else:
                    par = {k: rng.choice(v) for k, v in SPEC[fn].items()}
                prev[fn] = par
                op = {"k": "call", "fn": fn, "par": par, "mess": rng.random() < 0.3, "w": rng.randrange(2), "np1": rng.random() < 0.2,
                      "bad": rng.choices([None, "dist", "len"], [20, 1, 1])[0], "view": rng.random() < 0.2,
                      "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 120)], p_none=p_none)}
            rng.choice(tasks)["ops"].append(op)
        if nt > 1 and rng.random() < 0.35:      # a race: every thread makes one call of the same step with other parameters
            net.update(n=min(net["n"], 4), T=min(net["T"], 6))
            fn = hot[0]
            par = {k: rng.choice(v) for k, v in SPEC[fn].items()}
            for t in tasks:
                par = dict(par)
                for _ in range(rng.choice([1, 2, 3])):
                    if par:
                        key = rng.choice(sorted(par))
                        par[key] = rng.choice(SPEC[fn][key])
                t["ops"] = [{"k": "call", "fn": fn, "par": par, "mess": rng.random() < 0.3, "w": rng.randrange(2), "np1": False, "bad": None, "view": False, "faults": []}]
        plan = {"tasks": tasks, "net": net}
        plan.update(self.sched(rng, nt, line=(0.05, 0.2, 0.5), instr=0.1))
        return plan

    # -------------------------------------------------------------- fixture
    def setup(self, plan):
        self.d = d = network(plan["net"])
        r = np.random.RandomState(plan["net"]["seed"] + 1)
        self.used = set()
        shp = d["pmin"].shape
        self.wet = []
        for k in range(2):
            w = (r.uniform(size=shp) < (0.3, 0.6)[k]).astype(float)
            kind = plan["net"]["wetkind"]
            if kind == "nan":
                w[r.uniform(size=shp) < 0.1] = np.nan
            elif kind == "bool":
                w = w == 1
            elif kind == "dry":
                w[...] = 0
            self.wet.append(d["pmin"].copy(data=w))
        self.pref = d["pmin"].copy(data=np.nan_to_num(d["pmin"].values, nan=-50) + r.uniform(-1, 4, shp))
        self.F = d["pmin"].copy(data=r.uniform(-40, 5, shp))
        if plan["net"]["nan"]:
            self.F.values[r.uniform(size=shp) < 0.1] = np.nan
            self.pref.values[r.uniform(size=shp) < 0.1] = np.nan
        self.a = xr.DataArray(r.uniform(0.05, 0.3, d["n"]), dims="cml_id", coords={"cml_id": d["pmin"].cml_id})
        self.b = xr.DataArray(r.uniform(0.8, 1.1, d["n"]), dims="cml_id", coords={"cml_id": d["pmin"].cml_id})
        # the shared distance matrix, computed by the library in a pristine instance
        from .. import procs
        mods = self.fresh()
        procs.swap_in(mods)
        try:
            s = d["site"]
            self.dist = mods[WD].calc_distance_between_cml_endpoints(list(d["ids"]), s[0].copy(), s[1].copy(), s[2].copy(), s[3].copy())
        finally:
            procs.swap_in(self.proc.modules)
        self.dist = self.dist.load()

    def case(self, op):
        d, par, fn = self.d, op["par"], op["fn"]
        kw = {k: v for k, v in par.items() if v is not None and k not in ("ab", "L", "sub", "form")}
        pmin, pmax, wet = d["pmin"], d["pmax"], self.wet[op["w"]]
        if fn == "dist":
            ids, s = list(d["ids"]), d["site"]
            if par["sub"] and len(ids) > 2:
                ids, s = ids[:-1], [v[:-1] for v in s]
            if par["form"] == "list":
                s = [list(v) for v in s]
            elif par["form"] == "da":
                s = [xr.DataArray(v, dims="cml_id", coords={"cml_id": ids}) for v in s]
            if op["bad"]:
                s = [s[0][:1], s[1], s[2], s[3]]
            return {"ids": ids, "s": s}, lambda m, a: m[WD].calc_distance_between_cml_endpoints(a["ids"], *a["s"])
        if fn == "wetdry":
            dist = self.dist
            if op["bad"] == "dist":
                dist = dist.isel(cml_id2=slice(0, -1))
            if op["bad"] == "len":
                pmin = pmin.drop_vars("length")
            return {"pmin": pmin, "dist": dist, "kw": kw}, lambda m, a: m[WD].nearby_wetdry(a["pmin"], a["dist"], **a["kw"])
        if fn == "pref":
            if op["view"]:
                pmax = pmin
            return {"q": [pmin, pmax, wet], "kw": kw}, lambda m, a: m[RR].nearby_determine_reference_level(*a["q"], **a["kw"])
        if fn == "correct":
            return {"q": [pmin, pmax, wet, self.pref]}, lambda m, a: m[RR].nearby_correct_received_signals(*a["q"])
        # rain
        if kw.get("F_value_threshold") == "none":
            kw["F_value_threshold"] = None
        q = [self.pref, d["pmin"], d["pmax"], self.F]
        L = d["pmin"].length if par["L"] else 3.5
        if op["np1"]:
            q = [v.isel(cml_id=0).values for v in q]
            L = 3.5
        if par["ab"] == 0:
            kw.update(f_GHz=d["pmin"].frequency if not op["np1"] else 23.0, pol="H")
        elif par["ab"] == 1:
            kw.update(a=self.a if not op["np1"] else 0.1, b=self.b if not op["np1"] else 1.05)
        else:
            kw.update(a=0.1, f_GHz=20.0)
        return {"q": q, "L": L, "kw": kw}, lambda m, a: m[RR].nearby_rainfall_retrival(*a["q"], length=a["L"], **a["kw"])

    def do(self, me, op):
        if op["k"] == "mut":
            if not self.running:
                self.mutate(op)
            return
        me.nofault += 1
        args, call = self.case(op)
        if op["fn"] in self.used:
            self.again += 1
        self.used.add(op["fn"])
        me.nofault -= 1
        mods = self.proc.modules
        o, e, fault, ov = self.checked(me, op["fn"], lambda: call(mods, args), call, args, op["fn"])
        me.nofault += 1
        if o[0] == "ok" and op["mess"] and not self.running:
            self.user_scribbles(o, args, op["fn"])
        me.nofault -= 1

    def mutate(self, op):
        d = self.d

        def fn():
            w = op["what"]
            if w == "pmin":
                d["pmin"].values[..., d["pmin"].shape[-1] // 2] += op["by"]
            elif w == "dist":
                for k in self.dist.data_vars:
                    self.dist[k].values[...] *= 1.0 + abs(op["by"]) / 2
            elif w == "wet":
                for x in self.wet:
                    x.values[...] = x.values[..., ::-1].copy()
            elif w == "length":
                # coordinates are shared by xarray itself, so the user replaces this one
                d["pmin"]["length"] = d["pmin"]["length"] * 1.5
            elif w == "site":
                d["site"][0][0] += 0.05
        self.user_changes_args(fn)


def network(sp):
    r = np.random.RandomState(sp["seed"])
    n, T = sp["n"], sp["T"]
    la, lo = 50 + r.uniform(0, 0.06, n), 8 + r.uniform(0, 0.09, n)
    lb, lob = la + r.uniform(-0.02, 0.02, n), lo + r.uniform(-0.03, 0.03, n)
    for k in range(min(sp["far"], n - 1)):
        by = 1.0 + k if sp["seed"] % 7 else 15.0 + 10 * k      # rarely on another continent
        la[k] += by
        lb[k] += by
    if sp["where"] == "east":
        lo, lob = lo + 172.0, lob + 172.0           # across the date line, counted 0..360
        if sp["seed"] % 2:
            lo[lo > 180] -= 360
    elif sp["where"] == "south":
        la, lb, lo, lob = la - 80.0, lb - 80.0, lo - 70.0, lob - 70.0
    elif sp["where"] == "same":
        la[1], lo[1], lb[1], lob[1] = la[0], lo[0], lb[0], lob[0]
    elif sp["where"] == "nan":
        la[n - 1] = np.nan
    ids = ["link%d" % i for i in range(n)] if sp["ids"] == "str" else [10 * i + 3 for i in range(n)]
    rain = (r.uniform(size=T) < sp["rain"]) * r.uniform(2, 12, T)
    base = r.uniform(-55, -45, n)
    pmin = base[:, None] - rain[None, :] * r.uniform(0.5, 1.2, (n, 1)) + r.normal(0, 0.3, (n, T))
    pmax = pmin + r.uniform(0, 2, (n, T))
    pmin[r.uniform(size=(n, T)) < sp["nan"]] = np.nan
    if sp["dead"]:
        keep = pmin[0, T // 2]
        pmin[0] = np.nan
        if sp["dead"] == "but1":
            pmin[0, T // 2] = -50.0 if np.isnan(keep) else keep
    pmin, pmax = pmin.astype(sp["dtype"]), pmax.astype(sp["dtype"])
    time = pd.date_range("2024-06-01", periods=T, freq="15min")
    co = {"cml_id": ids, "time": time, "length": ("cml_id", r.uniform(0.5, 12, n)), "frequency": ("cml_id", r.choice([18.0, 23.0, 38.0], n))}
    A = lambda v: xr.DataArray(v, dims=("cml_id", "time"), coords=co)
    pm, px = A(pmin), A(pmax)
    if sp["order"] == "tc":
        pm, px = pm.transpose("time", "cml_id").copy(), px.transpose("time", "cml_id").copy()
    return {"pmin": pm, "pmax": px, "ids": ids, "site": [la, lo, lb, lob], "n": n, "T": T}
