"""C19: a link's results are its own, whichever links are processed with it.

A network whose links join, leave, are moved and retuned while telemetry is lost; each poll processes the present
network as a whole, and every link (nearby-link steps: every group of links in reach of each other) alone in a
pristine instance."""
import numpy as np
import pandas as pd
import xarray as xr

from .. import procs
from . import stages
from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults
from .w_c16 import signal, variety

BL, WA, KR, WD, RR, BO = stages.BL, stages.WA, stages.KR, stages.WD, stages.RR, stages.BO
POL = ["H", "V", "h", "v", "horizontal", "vertical"]
FREQ = [7.5, 18.0, 18.036, 23.0, 23.156, 38.0, 38.5, 80.0]
LEN = [0.4, 0.8, 2.5, 7.0, 20.0]


class World(FeedWorld):
    modules = [BL, WA, KR, WD, RR, BO]
    quick = (6000, 100)
    npristine = 7
    real = modules + ["pycomlink.processing.xarray_wrapper, pycomlink.spatial.helper", "numpy, scipy, xarray, bottleneck; numba code as plain Python"]
    assumptions = ["link ids in one data set are unique; data and per-link parameters (but not the distance matrix) list the links in the same order",
                   "frequency and polarization have the same layout (documented), which may differ from that of the data",
                   "numba compiles the loops faithfully (they run as plain Python here)"]
    rule = ("plans: chain of baseline, wet antenna and rain rate, k-R parameters, blackout gap markers, reference level chain, or nearby-link chain on 1-7 links with "
            "1-3 channels, 2-40 steps, 0-6 transport faults, 1-6 polls of the present network as a whole (any order of links and dimensions, "
            "parameters per link or common), 0-6 membership changes (join, leave, move, retune, reorder), interrupts; each link alone is the reference; "
            "non-trivial: a poll with at least two links was compared")

    def prepare(self):
        super().prepare()
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        self.pristine = [procs.new_instance(self.modules) for _ in range(self.npristine)]

    def plan(self, rng, tier):
        st = rng.choices(["chain", "ab", "reflevel", "nearby", "gap"], [8, 2, 4, 5, 2])[0]
        L = rng.choice([1, 2, 3, 4, 5]) if st != "nearby" else rng.choice([3, 4, 5, 7])
        T = rng.choice([2, 6, 10, 16, 25]) if st != "nearby" else rng.choice([8, 12, 20])
        if st in ("chain", "reflevel") and rng.random() < 0.03:
            T = rng.choice([100, 600])
        if st == "ab" and rng.random() < 0.2:
            L = rng.choice([15, 40])
        C = rng.choice([1, 1, 2, 3]) if st in ("chain", "ab", "gap") else 1
        square = C > 1 and rng.random() < 0.4
        L = C if square else L
        ops = feed_faults(rng, L * C, T, rng.choice([0, 0, 1, 3, 6]))
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            ops.append({"k": rng.choice(["join", "leave", "leave", "move", "retune", "retune", "order"]), "at": rng.randrange(T), "l": rng.randrange(L),
                        "f": rng.choice(FREQ), "len": rng.choice(LEN), "pol": rng.choice(POL), "c": rng.randrange(C), "seed": rng.getrandbits(16),
                        "cl": rng.randrange(3)})
        for _ in range(rng.randint(1, 5)):
            ops.append({"k": "poll", "at": round(rng.uniform(1, T + 4), 2), "dims": rng.randrange(6), "par": rng.choice(["link", "link", "link", "common"]), "pd": rng.randrange(2),
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 200)], p_none=0.85)})
        f = {"L": L * C, "T": T, "wait": rng.choice([0.9, 2]), "jitter": rng.choice([0, 0.1]), "seed": rng.getrandbits(30),
             "evt": rng.choice([2, 4, 8]), "flip": rng.choice([0, 0.1, 0.3]), "noise": rng.choice([0.1, 0.5]), "unk": rng.choice(["nan", "keep"])}
        par = {"navg": rng.choice([1, 1, 2, 3]), "waa": rng.choice(["schleiss", "leijnse", "pastorek", "none"]), "waamax": rng.choice([2.3, 1.0]),
               "tau": rng.choice([15, 3]), "rmin": rng.choice([0.1, 0.0, 1.0]), "perlink": rng.random() < 0.4, "viaab": rng.random() < 0.3,
               "approx": rng.choice(["ITU_2005", "ITU_2005", "ITU_2003"]), "ids": rng.choice(["str", "int", "rev"]),
               "radius": rng.choice([5, 15, 30]), "minl": rng.choice([1, 2]), "tper": rng.choice([1, 2]), "minh": rng.choice([0.5, 1]), "ndry": rng.choice([2, 4, 8]),
               "minp": rng.choice([1, 2]), "fthr": rng.choice([-32.5, -3.0, None]), "thr": -55, "same": rng.random() < 0.2, "C": C,
               "links": [{"f": [rng.choice(FREQ) for _ in range(C)], "pol": [rng.choice(POL) for _ in range(C)], "len": rng.choice(LEN),
                          "cl": rng.randrange(3), "xy": [round(rng.uniform(0, .05), 4) for _ in range(4)]} for _ in range(L)],
               "out": [i for i in range(L) if rng.random() < 0.2 and not square]}
        if par["same"]:
            par["links"] = [dict(par["links"][0], cl=p["cl"], xy=p["xy"]) for p in par["links"]]
        variety(rng, f, par)
        return {"feed": f, "stage": st, "par": par, "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def simplify(self, plan):
        import copy
        for k in ("jump", "quant", "flip"):
            if plan["feed"].get(k):
                p = copy.deepcopy(plan)
                p["feed"][k] = 0
                yield p

    def setup(self, plan):
        self.plan_ = plan
        self.x, self.wet, self.spread = signal(plan["feed"])
        self.par = plan["par"]
        self.ncmp = 0
        self.pool = list(self.pristine)

    # ---------------------------------------------------------------- network
    def network(self, now):
        """Present members in order, with their present properties."""
        import copy
        links = copy.deepcopy(self.par["links"])
        members = [i for i in range(len(links)) if i not in self.par["out"]] or [0]
        for o in sorted((o for t in self.plan_["tasks"] for o in t["ops"] if o["k"] in ("join", "leave", "move", "retune", "order")), key=lambda o: o["at"]):
            if o["at"] > now:
                break
            l, k = o["l"] % len(links), o["k"]
            if k == "join" and l not in members:
                members.append(l)
            elif k == "leave" and l in members and len(members) > 1:
                members.remove(l)
            elif k == "retune":
                links[l]["f"][o["c"]], links[l]["pol"][o["c"]] = o["f"], o["pol"]
            elif k == "move":
                links[l]["len"], links[l]["cl"] = o["len"], o["cl"]
            elif k == "order":
                np.random.RandomState(o["seed"]).shuffle(members)
        return members, links

    def arrays(self, members, n, h):
        C = self.par["C"]
        rows = [[l * C + c for c in range(C)] for l in members]
        x = np.where(h, self.x[:, :n], np.nan)
        wet = self.wet[:, :n].copy()
        if self.plan_["feed"]["unk"] == "nan":
            wet[~h] = np.nan
        y = -x + self.spread[:, :n]
        return x[rows], wet[rows], y[rows]           # link x channel x time

    def name(self, l):
        return {"int": 100 - l, "str": "cml_%d" % l, "rev": "z%d" % (9 - l)}[self.par["ids"]]

    def wrap(self, v, members, links, dims, freq="1min"):
        C = self.par["C"]
        n = v.shape[-1]
        f = np.array([links[l]["f"] for l in members], float)
        pol = np.array([links[l]["pol"] for l in members])
        ln = np.array([links[l]["len"] for l in members], float)
        co = {"cml_id": [self.name(l) for l in members], "time": pd.date_range("2024-05-01", periods=n, freq=freq), "length": ("cml_id", ln)}
        if C == 1 and dims % 2 == 0:
            co.update(frequency=("cml_id", f[:, 0]), polarization=("cml_id", pol[:, 0]))
            a = xr.DataArray(v[:, 0].copy(), dims=("cml_id", "time"), coords=co)
            return a if dims < 3 else a.transpose("time", "cml_id")
        co.update(channel_id=["c%d" % c for c in range(C)], frequency=(("cml_id", "channel_id"), f), polarization=(("cml_id", "channel_id"), pol))
        a = xr.DataArray(v.copy(), dims=("cml_id", "channel_id", "time"), coords=co)
        return a.transpose(*[("cml_id", "channel_id", "time"), ("channel_id", "cml_id", "time"), ("time", "cml_id", "channel_id"),
                             ("cml_id", "time", "channel_id"), ("time", "channel_id", "cml_id"), ("channel_id", "time", "cml_id")][dims])

    def unwrap(self, v, members):
        """link x channel x time, by label"""
        v = v.sel(cml_id=[self.name(l) for l in members])
        if "channel_id" in v.dims:
            return v.transpose("cml_id", "channel_id", "time").values
        return v.transpose("cml_id", "time").values[:, None]

    # ----------------------------------------------------------------- stages
    def common(self, op, members, links):
        """Are all properties equal, and does the caller then give them only once?"""
        k = [(tuple(links[l]["f"]), tuple(links[l]["pol"]), links[l]["len"]) for l in members]
        return op.get("par") == "common" and len(set(k)) == 1 and len(set(k[0][0])) == 1 and len(set(k[0][1])) == 1

    def params(self, op, X):
        """Parameters have their own order of dimensions, as they come from another table than the data."""
        f, pol = X.frequency, X.polarization
        if f.ndim == 2:
            o = [("cml_id", "channel_id"), ("channel_id", "cml_id")][op.get("pd", 0)]
            f, pol = f.transpose(*o), pol.transpose(*o)      # a_b() requires one layout of both
        return f, pol

    def whole_chain(self, m, op, X, W, members, links):
        p = self.par
        (f, pol), ln = self.params(op, X), X.length
        if self.common(op, members, links):
            f, pol, ln = links[members[0]]["f"][0], links[members[0]]["pol"][0], links[members[0]]["len"]
        b = m[BL].baseline_constant(X, W, n_average_last_dry=p["navg"])
        A = X - b
        pos = A.where(~(A < 0), 0.0)
        out = {"baseline": b}
        if p["waa"] == "schleiss":
            wm = p["waamax"] if not p["perlink"] else p["waamax"] + 0.1 * X.length
            out["waa"] = m[WA].waa_schleiss_2013(rsl=X, baseline=b, wet=W, waa_max=wm, delta_t=1.0, tau=p["tau"])
        elif p["waa"] == "leijnse":
            out["waa"] = m[WA].waa_leijnse_2008_from_A_obs(pos, f_Hz=f * 1e9, pol=pol, L_km=ln)
        elif p["waa"] == "pastorek":
            out["waa"] = m[WA].waa_pastorek_2021_from_A_obs(pos, f * 1e9, pol, ln, A_max=p["waamax"] * 5)
        k = A - out["waa"] if "waa" in out else A
        if p["viaab"]:
            a_, b_ = m[KR].a_b(f, pol, approx_type=p["approx"])
            if not isinstance(f, xr.DataArray):
                a_, b_ = float(np.asarray(a_).ravel()[0]), float(np.asarray(b_).ravel()[0])
            out["R"] = m[KR].calc_R_from_A(k, L_km=ln, a=a_, b=b_, R_min=p["rmin"])
        else:
            out["R"] = m[KR].calc_R_from_A(k, ln, f_GHz=f, pol=pol, a_b_approximation=p["approx"], R_min=p["rmin"])
        return {n: self.unwrap(v, members) for n, v in out.items()}

    def alone_chain(self, m, x, w, f, pol, ln):
        p = self.par
        b = m[BL].baseline_constant(x, w, p["navg"])
        A = x - b
        pos = np.where(A < 0, 0.0, A)
        out = {"baseline": b}
        if p["waa"] == "schleiss":
            out["waa"] = m[WA].waa_schleiss_2013(x, b, w, p["waamax"] if not p["perlink"] else p["waamax"] + 0.1 * ln, 1.0, p["tau"])
        elif p["waa"] == "leijnse":
            out["waa"] = m[WA].waa_leijnse_2008_from_A_obs(pos, f * 1e9, pol, ln)
        elif p["waa"] == "pastorek":
            out["waa"] = m[WA].waa_pastorek_2021_from_A_obs(pos, f * 1e9, pol, ln, A_max=p["waamax"] * 5)
        k = A - out["waa"] if "waa" in out else A
        out["R"] = m[KR].calc_R_from_A(k, ln, f_GHz=f, pol=pol, a_b_approximation=p["approx"], R_min=p["rmin"])
        return out

    def gapthr(self, ln):
        return self.par["thr"] - ln if self.par["perlink"] else self.par["thr"]

    def reflevel(self, m, X, Y, W):
        p = self.par
        pref = m[RR].nearby_determine_reference_level(X, Y, W, n_average_dry=p["ndry"], min_periods=p["minp"])
        lo, hi = m[RR].nearby_correct_received_signals(X, Y, W, pref)
        R = m[RR].nearby_rainfall_retrival(pref, lo, hi, X * 0.0, length=X.length, f_GHz=X.frequency, pol=X.polarization if p["perlink"] else "H",
                                           a_b_approximation=p["approx"], waa_max=p["waamax"], F_value_threshold=p["fthr"])
        return {"pref": pref, "pcmin": lo, "pcmax": hi, "nR": R}

    def nearby(self, m, X, Y, members, links, everyone=False):
        p = self.par
        known = members if not everyone else list(range(len(links)))     # the matrix may know more links, in another order
        site = [[(50 if j % 2 == 0 else 8) + links[l]["cl"] + links[l]["xy"][j] for l in known] for j in range(4)]
        d = m[WD].calc_distance_between_cml_endpoints([self.name(l) for l in known], *site)
        wet, F = m[WD].nearby_wetdry(X, d, radius=p["radius"], min_links=p["minl"], interval=15, timeperiod=p["tper"], min_hours=p["minh"])
        pref = m[RR].nearby_determine_reference_level(X, Y, wet, n_average_dry=p["ndry"], min_periods=1)
        lo, hi = m[RR].nearby_correct_received_signals(X, Y, wet, pref)
        R = m[RR].nearby_rainfall_retrival(pref, lo, hi, F, length=X.length, f_GHz=X.frequency, pol=X.polarization if p["perlink"] else "H",
                                           a_b_approximation=p["approx"], waa_max=p["waamax"], F_value_threshold=p["fthr"])
        return {"nwet": wet, "F": F, "pref": pref, "pcmin": lo, "pcmax": hi, "nR": R}

    # ------------------------------------------------------------------- poll
    def poll(self, me, op):
        me.nofault += 1
        st, C = self.plan_["stage"], self.par["C"]
        h = self.have()
        n = h.shape[1]
        if n < 1:
            me.nofault -= 1
            return
        members, links = self.network((self.s.now - self.s.t0) / 60.0)
        x, w, y = self.arrays(members, n, h)
        dims = op.get("dims", 0)
        mods = self.proc.modules
        un = lambda o, mem: {k: self.unwrap(v, mem) for k, v in o.items()}
        if st == "chain":
            X, W = self.wrap(x, members, links, dims), self.wrap(w, members, links, dims)
            whole = lambda: self.whole_chain(mods, op, X, W, members, links)
        elif st == "gap":
            X = self.wrap(-x, members, links, dims)
            whole = lambda: un(dict(zip(("start", "end"), mods[BO].get_blackout_start_and_end(X, self.gapthr(X.length)))), members)
        elif st == "ab":
            X = self.wrap(x, members, links, dims)
            whole = lambda: mods[KR].a_b(*self.params(op, X), approx_type=self.par["approx"])
        else:
            dims = 3 if dims >= 3 else 0
            X, Y, W = (self.wrap(v, members, links, 4 if dims else 0, "15min") for v in (-x, y, w))
            if st == "reflevel":
                whole = lambda: un(self.reflevel(mods, X, Y, W), members)
            else:
                whole = lambda: un(self.nearby(mods, X, Y, members, links, op.get("par") == "common"), members)
        me.nofault -= 1
        self.s.event("call", me.op["id"], st, n, members)
        o = outcome(whole)
        me.nofault += 1
        fault = op_fault(self.s, me)
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "")
        ref = self.pool.pop() if self.pool else procs.new_instance(self.modules)
        procs.swap_in(ref)
        try:
            e = outcome(lambda: self.alone(ref, st, op, members, links, x, w, y))
        finally:
            procs.swap_in(mods)
        self.nchecks += 1
        if e[0] == "ok":
            if o[0] == "ok":
                res = o[1]
                if st == "ab":
                    v = outcome(lambda: {k: self.unwrap(r.expand_dims(time=[0]) if isinstance(r, xr.DataArray) else r, members) for k, r in zip("ab", res)})
                    if v[0] != "ok":
                        self.bad("unlabelled", "k-R parameters are not labelled with the links: %s %s" % v[1:])
                        v = None
                    res = v and v[1]
                if res is not None:
                    if len(members) > 1:
                        self.ncmp += 1
                    self.compare(res, e[1], members)
            elif not fault:
                self.bad("fails-together", "%s fails for the network but works for each link: %s %s" % (st, o[1], o[2]))
        me.nofault -= 1

    def alone(self, m, st, op, members, links, x, w, y):
        C = self.par["C"]
        if st in ("chain", "ab", "gap"):
            out = {}
            for i, l in enumerate(members):
                for c in range(C):
                    if st == "chain":
                        r = self.alone_chain(m, x[i, c].copy(), w[i, c].copy(), links[l]["f"][c], links[l]["pol"][c], links[l]["len"])
                    elif st == "gap":
                        r = dict(zip(("start", "end"), m[BO].get_blackout_start_and_end(-x[i, c], self.gapthr(links[l]["len"]))))
                    else:
                        r = {k: np.asarray(v, float).ravel() for k, v in zip("ab", m[KR].a_b(links[l]["f"][c], links[l]["pol"][c], approx_type=self.par["approx"]))}
                    for k, v in r.items():
                        out.setdefault(k, np.full((len(members), C, len(v)), np.nan))[i, c] = v
            return out
        groups = [[l] for l in members] if st == "reflevel" else [[l for l in members if links[l]["cl"] == k] for k in range(3)]
        out = {}
        for g in groups:
            if not g:
                continue
            ix = [members.index(l) for l in sorted(g)]
            g = sorted(g)
            X, Y, W = (self.wrap(v[ix], g, links, 0, "15min") for v in (-x, y, w))
            r = self.reflevel(m, X, Y, W) if st == "reflevel" else self.nearby(m, X, Y, g, links)
            for k, v in r.items():
                v = self.unwrap(v, g)
                out.setdefault(k, np.full((len(members),) + v.shape[1:], np.nan))[ix] = v
        return out

    def compare(self, a, e, members):
        for k in e:
            if k not in a or a[k].shape != e[k].shape:
                self.bad("shape", "%s of the network has shape %s, of its links %s" % (k, a[k].shape if k in a else None, e[k].shape))
                continue
            u, v = np.asarray(a[k], float), np.asarray(e[k], float)
            d = ~((np.isnan(u) & np.isnan(v)) | (u == v) | (np.abs(u - v) <= 1e-8 * (1 + np.abs(v))))
            if d.any():
                i, c, t = np.argwhere(d)[0]
                self.bad("company-" + k, "%s of link %s channel %d at step %d is %r in the network %s and %r alone"
                         % (k, self.name(members[i]), c, t, float(u[i, c, t]), [self.name(l) for l in members], float(v[i, c, t])))

    def nontrivial(self):
        return self.ncmp > 0
