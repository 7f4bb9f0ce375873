"""C13: processing functions have no memory and leave their inputs alone."""
import numpy as np
import pandas as pd
import xarray as xr

from .base import pick_faults
from .memworld import MemWorld

P = "pycomlink.processing."
BL, WA, KR, BO, MM = P + "baseline", P + "wet_antenna", P + "k_R_relation", P + "blackout_gap_detection", P + "min_max"
MLP, STFT, STATS, VAL = P + "wet_dry.mlp", P + "wet_dry.stft", "pycomlink.validation.stats", "pycomlink.validation.validator"

FORMS = ["np", "np", "np", "f32", "int", "series", "da", "da", "da2"]
POLS = ["H", "V", "h", "vertical"]
# function -> {parameter: choices}; the first choice stands for "not passed" if it is None
SPEC = {
    "baseline_constant": {"n": [None, 1, 2, 3, 5]},
    "baseline_linear": {"ignore_nan": [None, False, True]},
    "waa_schleiss": {"waa_max": [2.3, 1.5], "delta_t": [1, 15], "tau": [15, 5]},
    "waa_leijnse_A": {"f": [18e9, 18.04e9, 23e9, 38e9], "pol": POLS[:2], "L": [1.0, 5.0, 5.02], "T_K": [None, 280.0, 280.3], "gamma": [None, 1e-5],
                      "delta": [None, 0.3], "n_antenna": [None, 1.5], "l_antenna": [None, 0.002], "neg": [0, 0, 0, 0, 1]},
    "waa_leijnse_R": {"neg": [0, 0, 0, 1], "f": [18e9, 18.04e9, 23e9], "T_K": [None, 280.0, 280.3], "gamma": [None, 1e-5], "delta": [None, 0.3], "n_antenna": [None, 1.5], "l_antenna": [None, 0.002]},
    "waa_pastorek_A": {"f": [18e9, 18.04e9, 23e9, 38e9], "pol": POLS[:2], "L": [1.0, 5.0, 5.02], "A_max": [None, 8.0], "zeta": [None, 0.4], "d": [None, 0.2], "neg": [0, 0, 0, 0, 1]},
    "waa_pastorek_R": {"neg": [0, 0, 0, 1], "A_max": [None, 8.0], "zeta": [None, 0.4], "d": [None, 0.2]},
    "eps_water": {"f": [18e9, 18.04e9, 23e9], "T": [280.0, 280.3, 293.0], "vec": [0, 1]},
    "calc_R": {"L": [1.0, 5.0, 5.02], "f": [18.0, 18.04, 23.0, 38.5] * 4 + [200.0], "pol": POLS * 4 + ["x"], "ab": [0, 0, 0, 1, 2, 3], "neg": [0, 0, 1], "a": [0.1, 0.3], "b": [0.9, 1.1],
               "approx": [None, "ITU_2003", "ITU_2005"], "R_min": [None, 0.0, 1.0]},
    "calc_R_min_max": {"L": [1.0, 5.0, 5.02], "f": [18.0, 18.04, 23.0, 38.5], "pol": [None] + POLS, "ab": [0, 0, 1, 3], "neg": [0, 0, 1], "a": [0.1, 0.3], "b": [0.9, 1.1], "R_min": [None, 1.0], "k": [None, 30]},
    "a_b": {"f": [18.0, 18.04, 23.0, 38.5] * 4 + [0.2], "pol": POLS, "approx": [None, "ITU_2003", "ITU_2005"] * 4 + ["nope"], "shape": ["scalar", "vec", "vec3", "da", "da0"]},
    "blackout": {"thr": [-60, -50, -50.3]},
    "blackout_mask": {"thr": [-60, -50]},
    "min_max": {"gT": [None, 0.5], "gR": [None, 1.0], "window": [None, 2, 4]},
    "mlp": {"model": [None, "rad_online", "rg_online", "rad", "rg"] * 3 + ["nope"]},
    "stft": {"wl": [8, 16, 12, 72], "thr": [1, 2, 1.04], "fdiv": [1e-3, 3e-3, 1.04e-3], "t0": [0, 4], "t1": [20, 40], "win": [0, 0, 1], "pxx": [0, 0, 0, 1, 2], "fs": [None, 1 / 30]},
    "wetdry_metrics": {},
    "rain_metrics": {"thr": [0.1, 1.0]},
    "wet_rates": {"which": [0, 1]},
}
WEIGHT = {"mlp": 3, "calc_R": 3, "a_b": 3, "waa_leijnse_A": 3, "waa_pastorek_A": 3, "baseline_constant": 3, "baseline_linear": 2}


class World(MemWorld):
    modules = [BL, WA, KR, BO, MM, MLP, STFT, STATS, VAL]
    quick = (8000, 60)
    npristine = 14
    real = ["pycomlink.processing.{baseline,wet_antenna,k_R_relation,blackout_gap_detection,min_max,xarray_wrapper,wet_dry.mlp,wet_dry.stft}",
            "pycomlink.validation.stats", "numpy, scipy, xarray, scikit-learn; numba code as plain Python"]
    assumptions = ["callers change shared arrays only while nobody uses them",
                   "numba compiles the loops faithfully (they run as plain Python here)"]
    rule = ("plans: 1-3 threads, 2-10 calls of 1-4 functions with arguments from small pools (consecutive calls differ in few "
            "arguments), NumPy/pandas/xarray forms, in-place changes of inputs and results, failing calls, interrupts and "
            "allocation failures; non-trivial: a fault fired, calls overlapped or a function was used again")

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        names = list(SPEC)
        hot = rng.choices(names, [WEIGHT.get(n, 1) for n in names], k=rng.choice([1, 1, 2, 3, 4]))
        nser = rng.choice([1, 2, 2, 3])
        series = [{"seed": rng.getrandbits(20), "n": rng.choice([1, 2, 7, 25, 45, 45, 45, 60]) if rng.random() < 0.97 else rng.choice([130, 400]), "nan": rng.choice([0, 0, 0.1, 0.4]),
                   "inf": rng.random() < 0.1, "form": rng.choice(FORMS)} for _ in range(nser)]
        if "mlp" in hot or "stft" in hot:
            series[0].update(n=rng.choice([41, 45, 60]), form="da" if "mlp" in hot else "np")
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        prev = {}
        for _ in range(rng.randint(2, 10)):
            if rng.random() < 0.2:
                op = {"k": "mut", "s": rng.randrange(nser), "what": rng.choice(["shift", "rev", "nan", "wet", "attrs"]), "by": rng.choice([0.5, 2.0])}
            else:
                fn = rng.choice(hot)
                if fn in prev and rng.random() < 0.75:
                    par, s, w = dict(prev[fn][0]), prev[fn][1], prev[fn][2]
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        if par:
                            key = rng.choice(sorted(par))
                            par[key] = rng.choice(SPEC[fn][key])
                    if rng.random() < 0.3:
                        s = rng.randrange(nser)
                else:
                    par = {k: rng.choice(v) for k, v in SPEC[fn].items()}
                    s, w = rng.randrange(nser), rng.choice(["rand", "block", "none", "all", "nan"])
                prev[fn] = (par, s, w)
                op = {"k": "call", "fn": fn, "par": par, "s": s, "wet": w, "view": rng.random() < 0.1,
                      "kw": rng.random() < 0.5, "mess": rng.random() < 0.3,
                      "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 150)], p_none=p_none)}
            rng.choice(tasks)["ops"].append(op)
        race = nt > 1 and rng.random() < 0.4
        if race:    # every thread makes one call of the same function with other parameters or data
            fn = rng.choice(names)
            series = [dict(series[0], seed=rng.getrandbits(20), n=n, form=f) for n, f in
                      ((rng.choice([7, 25, 45]), rng.choice(FORMS)) for _ in range(2))]
            if fn in ("mlp", "stft"):
                for sp in series:
                    sp.update(n=rng.choice([41, 45]), form="da" if fn == "mlp" else "np", inf=False)
            par = {k: rng.choice(v) for k, v in SPEC[fn].items()}
            s, w = rng.randrange(2), rng.choice(["rand", "block", "nan"])
            for t in tasks:
                par = dict(par)
                for _ in range(rng.choice([0, 1, 2])):
                    if par:
                        key = rng.choice(sorted(par))
                        par[key] = rng.choice(SPEC[fn][key])
                t["ops"] = [{"k": "call", "fn": fn, "par": par, "s": s, "wet": w, "view": False, "kw": rng.random() < 0.5, "mess": False, "faults": []}]
                s = rng.choice([s, 1 - s, 1 - s])
        plan = {"tasks": tasks, "series": series}
        plan.update(self.sched(rng, nt, line=(0.05, 0.2, 0.5) if race else (0.01, 0.05, 0.2), instr=0.25 if race else 0.1))
        return plan

    # ------------------------------------------------------------- fixture
    def setup(self, plan):
        self.data = [self.make(sp) for sp in plan["series"]]
        self.usedfn = set()
        self.derived = {}

    def make(self, sp):
        r = np.random.RandomState(sp["seed"])
        n = sp["n"]
        shape = (3, n) if sp["form"] == "da2" else (n,)
        x = -45 + np.cumsum(r.normal(0, 0.8, shape), -1)
        dip = r.uniform(size=shape) < 0.08
        x[dip] -= 20
        wet = {"rand": (r.uniform(size=shape) < 0.4).astype(float)}
        b = np.zeros(shape)
        b[..., n // 4:n // 2] = 1
        wet["block"], wet["none"], wet["all"] = b, np.zeros(shape), np.ones(shape)
        wn = b.copy()
        wn[r.uniform(size=shape) < 0.15] = np.nan
        wet["nan"] = wn
        if sp["form"] == "int":
            x = np.rint(x).astype(int)
        else:
            x[r.uniform(size=shape) < sp["nan"]] = np.nan
        if sp["form"] == "f32":
            x = x.astype(np.float32)
        y = x + (r.randint(0, 3, shape) if x.dtype.kind == "i" else r.normal(0, 1, shape).astype(x.dtype))
        a = np.abs(x + (45 if x.dtype.kind == "i" else x.dtype.type(45)))
        if x.dtype.kind == "f":     # gaps of the two signals need not coincide
            y[r.uniform(size=shape) < sp["nan"] / 2] = np.nan
            a[r.uniform(size=shape) < sp["nan"] / 2] = np.nan
        a[r.uniform(size=shape) < 0.1] = 0
        if sp.get("inf") and x.dtype.kind == "f":
            for v, w in ((x, -np.inf), (y, np.inf), (a, np.inf)):
                v[r.uniform(size=shape) < 0.05] = w
        d = {"x": x, "y": y, "a": a, "wet": wet, "n": n, "form": sp["form"]}
        self.dress(d)
        return d

    @staticmethod
    def dress(d):
        """The same data as the user holds it: one object per array, reused by all calls."""
        f = d["form"]
        n = d["n"]
        time = pd.date_range("2024-05-01", periods=n, freq="1min")

        def w(v):
            if f == "series":
                return pd.Series(v, index=time)
            if f == "da":
                return xr.DataArray(v, dims=("time",), coords={"time": time, "cml_id": "l0"}, attrs={"unit": "dB"})
            if f == "da2":
                return xr.DataArray(v, dims=("cml_id", "time"), coords={"time": time, "cml_id": ["a", "b", "c"],
                                                                        "frequency": ("cml_id", np.array([18.0, 23.0, 38.5]))}, attrs={"unit": "dB"})
            return v
        d["X"], d["Y"], d["A"] = w(d["x"]), w(d["y"]), w(d["a"])
        d["S"] = w(d["a"] - (5 if d["a"].dtype.kind == "i" else d["a"].dtype.type(5)))
        d["L"] = xr.DataArray([1.0, 5.0, 12.0], dims="cml_id", coords={"cml_id": ["a", "b", "c"]})
        d["pol"] = xr.DataArray(["H", "v", "vertical"], dims="cml_id", coords={"cml_id": ["a", "b", "c"]})
        d["W"] = {k: w(v if k == "nan" else (v if k == "all" else v.astype(bool))) for k, v in d["wet"].items()}

    @staticmethod
    def flat(v):
        """A plain 1-D array for functions that take nothing else."""
        v = v.values if hasattr(v, "values") else v
        return v[0] if v.ndim > 1 else v

    def case(self, op):
        """-> (args dict, function(mods, args))"""
        d, par, fn = self.data[op["s"]], op["par"], op["fn"]
        some = lambda *names: {k: par[k] for k in names if par.get(k) is not None}
        X, Y, A, W = d["X"], d["Y"], d["A"], d["W"][op["wet"]]
        if op["view"] and d["form"] in ("np", "f32", "int"):
            X, Y, A, W = X[::2], Y[::2], A[::2], W[::2]
        fx = self.flat
        if fn.startswith("calc_R"):
            if par["neg"]:
                A = d["S"][::2] if op["view"] and d["form"] in ("np", "f32", "int") else d["S"]
            if par["ab"] == 3:      # power law parameters in arrays of the caller
                key = ("ab", par["a"], par["b"])
                if key not in self.derived:
                    self.derived[key] = (np.array([par["a"]]), np.array([par["b"]]))
                par = dict(par, ab=1, a=self.derived[key][0], b=self.derived[key][1])
        if fn == "baseline_constant":
            kw = {"n_average_last_dry": par["n"]} if par["n"] is not None else {}
            if op["kw"]:
                return {"X": X, "W": W, "kw": kw}, lambda m, a: m[BL].baseline_constant(trsl=a["X"], wet=a["W"], **a["kw"])
            return {"X": X, "W": W, "kw": kw}, lambda m, a: m[BL].baseline_constant(a["X"], a["W"], **a["kw"])
        if fn == "baseline_linear":
            if d["form"] not in ("series",):
                X, W = fx(X), fx(W)
            return {"X": X, "W": W, "kw": some("ignore_nan")}, lambda m, a: m[BL].baseline_linear(a["X"], a["W"], **a["kw"])
        if fn == "waa_schleiss":
            return ({"X": X, "Y": Y, "W": W, "p": [par["waa_max"], par["delta_t"], par["tau"]]},
                    lambda m, a: m[WA].waa_schleiss_2013(a["X"], a["Y"], a["W"], *a["p"]))
        if fn in ("waa_leijnse_A", "waa_pastorek_A"):
            A = X if par["neg"] else A
            names = ("T_K", "gamma", "delta", "n_antenna", "l_antenna") if fn == "waa_leijnse_A" else ("A_max", "zeta", "d")
            f = par["f"]
            if d["form"] == "da2" and op["kw"]:
                f = d["A"].frequency * 1e9
            name = "waa_leijnse_2008_from_A_obs" if fn == "waa_leijnse_A" else "waa_pastorek_2021_from_A_obs"
            return ({"A": A, "f": f, "pol": par["pol"], "L": par["L"], "kw": some(*names)},
                    lambda m, a: getattr(m[WA], name)(a["A"], a["f"], a["pol"], a["L"], **a["kw"]))
        if fn == "waa_leijnse_R":
            A = X if par["neg"] else A
            if d["form"] == "series":
                A = fx(A)
            return ({"A": A, "f": par["f"], "kw": some("T_K", "gamma", "delta", "n_antenna", "l_antenna")},
                    lambda m, a: m[WA].waa_leijnse_2008(a["A"], a["f"], **a["kw"]))
        if fn == "waa_pastorek_R":
            A = X if par["neg"] else A
            return {"A": A, "kw": some("A_max", "zeta", "d")}, lambda m, a: m[WA].waa_pastorek_2021(a["A"], **a["kw"])
        if fn == "eps_water":
            f = np.array([par["f"], 38e9]) if par["vec"] else par["f"]
            return {"f": f, "T": par["T"]}, lambda m, a: m[WA].eps_water(a["f"], a["T"])
        if fn == "calc_R":
            kw = some("R_min")
            if par["ab"] == 1:
                kw.update(a=par["a"], b=par["b"])
            elif par["ab"] == 2:
                kw.update(a=par["a"], f_GHz=par["f"])
            else:
                kw.update(f_GHz=par["f"], pol=par["pol"])
                if par["approx"]:
                    kw["a_b_approximation"] = par["approx"]
                if d["form"] == "da2" and op["kw"]:
                    kw["f_GHz"] = d["A"].frequency
                    if par["pol"] == "vertical":
                        kw["pol"] = d["pol"]
            if op["kw"]:
                kw["L_km"] = d["L"] if d["form"] == "da2" and par["L"] == 5.0 else par["L"]
                return {"A": A, "kw": kw}, lambda m, a: m[KR].calc_R_from_A(A=a["A"], **a["kw"])
            return {"A": A, "L": par["L"], "kw": kw}, lambda m, a: m[KR].calc_R_from_A(a["A"], a["L"], **a["kw"])
        if fn == "calc_R_min_max":
            kw = some("R_min", "k", "pol")
            kw.update({"a": par["a"], "b": par["b"]} if par["ab"] else {"f_GHz": par["f"]})
            return {"A": fx(A), "L": par["L"], "kw": kw}, lambda m, a: m[KR].calc_R_from_A_min_max(a["A"], a["L"], **a["kw"])
        if fn == "a_b":
            f, pol = par["f"], par["pol"]
            kw = {"approx_type": par["approx"]} if par["approx"] else {}
            sh = par["shape"]
            key = ("a_b", sh, f, pol)
            if key not in self.derived:
                if sh == "vec":
                    v = [np.array([f, 24.0]), pol]
                elif sh == "vec3":
                    v = [np.array([f, 24.0, 9.5]), np.array([pol, "V", "H"])]
                elif sh == "da":
                    v = [xr.DataArray([f, 24.0], dims="cml_id", coords={"cml_id": ["p", "q"]}), xr.DataArray([pol, "V"], dims="cml_id", coords={"cml_id": ["p", "q"]})]
                elif sh == "da0":
                    v = [xr.DataArray([f, 24.0], dims="cml_id", coords={"cml_id": ["p", "q"]}), pol]
                else:
                    v = [f, pol]
                self.derived[key] = v
            f, pol = self.derived[key]
            if op["kw"]:
                return {"f": f, "pol": pol, "kw": kw}, lambda m, a: m[KR].a_b(f_GHz=a["f"], pol=a["pol"], **a["kw"])
            return {"f": f, "pol": pol, "kw": kw}, lambda m, a: m[KR].a_b(a["f"], a["pol"], **a["kw"])
        if fn in ("blackout", "blackout_mask"):
            x = fx(X)
            if fn == "blackout":
                return {"x": x, "t": par["thr"]}, lambda m, a: m[BO].get_blackout_start_and_end(a["x"], a["t"])
            key = (op["s"], par["thr"], op["view"])
            if key not in self.derived or len(self.derived[key][0]) != len(x):
                nan = np.isnan(x)
                with np.errstate(all="ignore"):
                    low = x < par["thr"]
                self.derived[key] = (np.append(nan[1:], False) & low, np.append(False, nan[:-1]) & low)
            return ({"x": x, "g": list(self.derived[key])},
                    lambda m, a: m[BO].created_blackout_gap_mask_from_start_end_markers(a["x"], *a["g"]))
        if fn == "min_max":
            x, y, w = fx(A), fx(X), fx(Y)
            return ({"q": [x, x + 1, np.minimum(y, w), np.maximum(y, w)], "kw": some("gT", "gR", "window")},
                    lambda m, a: m[MM]._calc_A_min_max(*a["q"], **a["kw"]))
        if fn == "mlp":
            if not isinstance(X, xr.DataArray) or X.ndim > 1:
                t = pd.date_range("2024-05-01", periods=len(fx(d["X"])), freq="1min")
                X = xr.DataArray(np.asarray(fx(d["X"]), float), dims="time", coords={"time": t})
                Y = xr.DataArray(np.asarray(fx(d["Y"]), float), dims="time", coords={"time": t})
            kw = {"model_sel": par["model"]} if par["model"] else {}
            return {"X": X, "Y": Y, "kw": kw}, lambda m, a: m[MLP].mlp_wet_dry(a["X"], a["Y"], **a["kw"])
        if fn == "stft":
            x = np.nan_to_num(fx(X).astype(float), nan=-45.0)
            kw = {"t_dry_start": par["t0"], "t_dry_stop": par["t1"]}
            if par["win"]:
                kw["window"] = np.hanning(par["wl"])
            if par["fs"]:
                kw["f_sampling"] = par["fs"]
            if par["pxx"]:
                r = np.random.RandomState(5)
                kw["Pxx"] = r.uniform(1, 2, (par["wl"] // 2 + 1, max(1, len(x) - par["wl"] + 1)))
                if par["pxx"] == 1:
                    kw["f"] = np.linspace(0, 8e-3, par["wl"] // 2 + 1)
            return ({"x": x, "p": [par["wl"], par["thr"], par["fdiv"]], "kw": kw},
                    lambda m, a: m[STFT].stft_classification(a["x"], *a["p"], **a["kw"]))
        if fn == "wetdry_metrics":
            w1 = fx(W)
            w2 = fx(d["W"]["rand"])[::2] if op["view"] and d["form"] in ("np", "f32", "int") else fx(d["W"]["rand"])
            return {"r": w1, "p": w2}, lambda m, a: m[STATS].calc_wet_dry_performance_metrics(a["r"], a["p"])
        if fn == "rain_metrics":
            r, p = fx(A), np.abs(fx(Y) + 45)
            if d["form"] == "series":
                r, p = A, Y
            return {"r": r, "p": p, "t": par["thr"]}, lambda m, a: m[STATS].calc_rain_error_performance_metrics(a["r"], a["p"], a["t"])
        if fn == "wet_rates":
            w2 = d["W"]["rand"][::2] if op["view"] and d["form"] in ("np", "f32", "int") else d["W"]["rand"]
            return {"r": W, "p": w2}, (lambda m, a: m[VAL].calc_wet_dry_error(a["r"], a["p"])) if par["which"] else (lambda m, a: m[STATS].calc_wet_error_rates(a["r"], a["p"]))
        raise KeyError(fn)

    # ----------------------------------------------------------------- ops
    def do(self, me, op):
        if op["k"] == "mut":
            if not self.running:
                self.mutate(op)
            return
        me.nofault += 1
        args, call = self.case(op)
        if op["fn"] in self.usedfn:
            self.again += 1
        self.usedfn.add(op["fn"])
        me.nofault -= 1
        mods = self.proc.modules
        o, e, fault, ov = self.checked(me, op["fn"], lambda: call(mods, args), call, args, op["fn"])
        me.nofault += 1
        # the STFT information echoes a supplied frequency array, so that one stays untouched
        if o[0] == "ok" and op["mess"] and not (op["fn"] == "stft" and op["par"]["pxx"]) and not self.running:
            self.user_scribbles(o, args, op["fn"])
        me.nofault -= 1

    def mutate(self, op):
        d = self.data[op["s"]]

        def put(obj, f):
            if isinstance(obj, pd.Series):
                obj.iloc[:] = f(obj.values.copy())
            elif isinstance(obj, xr.DataArray):
                obj.values[...] = f(obj.values.copy())
            else:
                obj[...] = f(obj.copy())

        def nan(v):
            v[..., v.shape[-1] // 2] = np.nan
            return v

        def fn():
            if op["what"] == "shift":
                for k in "XYA":
                    put(d[k], lambda v: v + v.dtype.type(op["by"]))
            elif op["what"] == "rev":
                for k in "XYA":
                    put(d[k], lambda v: v[..., ::-1])
            elif op["what"] == "nan":
                if d["x"].dtype.kind == "f":
                    put(d["X"], nan)
                    put(d["A"], nan)
            elif op["what"] == "attrs":
                if isinstance(d["X"], xr.DataArray):
                    d["X"].attrs["unit"] = "changed"
                    d["A"].attrs["unit"] = "changed"
            elif op["what"] == "wet":
                for k in ("rand", "block", "nan"):
                    put(d["W"][k], lambda v: v[..., ::-1])
        self.user_changes_args(fn)
