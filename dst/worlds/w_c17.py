"""C17: lost samples never turn into rain, hurt other links, or do lasting damage.

Twin records: what the collector has, and what it would have without any loss.  Each poll runs pycomlink on both."""
import numpy as np

from . import stages
from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults
from .w_c16 import signal, params, variety, stft_min, make_net

LINKS = {"chain": 4, "linear": 3, "blackout": 8, "nearby": 7, "reflevel": 4, "mlp": 2, "mlpc": 1, "torch": 3, "stft": 3}


class World(FeedWorld):
    modules = [stages.BL, stages.WA, stages.KR, stages.BO, stages.WD, stages.RR, stages.MLP, stages.RUN, stages.STFT]
    quick = (6000, 75)
    real = modules + ["numpy, scipy, xarray, bottleneck, scikit-learn, torch; numba code as plain Python"]
    assumptions = ["the wet/dry flags given to the baseline and reference level functions are right where known; with a lost sample they are either unknown or come from elsewhere",
                   "a closed step of the collector is not reopened", "numba compiles the loops faithfully (they run as plain Python here)",
                   "the trained CNN is replaced by a small model on windows"]
    rule = ("plans: one processing stage (chain of baseline, wet antenna and rain rate; linear baseline; blackout mask; nearby-link chain on two "
            "clusters of links; reference level; MLP; CNN windows; STFT classifier), 1-7 links, 6-70 steps (centred MLP: up to 1000), 1-8 transport faults, 1-3 polls, "
            "each compared with the loss-free twin; non-trivial: a sample was missing from the record and a result was compared")

    def prepare(self):
        super().prepare()
        import tqdm
        import torch
        torch.set_num_threads(1)
        tqdm.tqdm.monitor_interval = 0

    def plan(self, rng, tier):
        st = rng.choices(["chain", "linear", "blackout", "nearby", "reflevel", "mlp", "mlpc", "torch", "stft"], [9, 4, 3, 5, 4, 3, 0.6, 2, 3])[0]
        L = rng.randint(1, LINKS[st])
        T = rng.choice([6, 10, 16, 25, 40])
        par = params(rng, st, L)
        if st == "mlp":
            T = rng.choice([60, 70, 100])
        elif st == "mlpc":
            T = rng.choice([420, 560, 1000])
        elif st == "stft":
            T = rng.choice([25, 40, 60])
        elif st == "nearby":
            T = rng.choice([12, 20, 30])
            L = rng.choice([4, 5, 7])
            par = params(rng, st, L)
            par["tper"] = 1
            par["minh"] = 0.5
            par["ndry"] = rng.choice([2, 4])
            par["minl"] = rng.choice([1, 1, 2])
            c = [rng.randrange(2) for _ in range(L)]        # two clusters, some 100 km apart
            par["site"] = [[v + k for v, k in zip(row, c)] for row in par["site"]]
            par["cluster"] = c
        if st not in ("mlpc", "nearby") and rng.random() < 0.03:      # a long record
            T = rng.choice([150, 400, 1500])
        far = rng.random() < 0.6        # losses concentrated on some links
        ops = feed_faults(rng, L, T, rng.choice([1, 2, 4, 8]) if st != "blackout" else rng.choice([4, 8, 16, 24]))
        if far:
            hit = [rng.randrange(L) for _ in range(max(1, L // 3))]
            if st == "nearby":
                w = rng.randrange(2)
                hit = [i for i in range(L) if par["cluster"][i] == w] or hit
            for o in ops:
                o["l"] = rng.choice(hit)
            ops = [o for o in ops if o["k"] not in ("outage", "crash", "skew")] or [{"k": "loss", "at": rng.randrange(T), "l": hit[0], "n": rng.choice([1, 3]), "by": 1}]
            if st == "nearby" and rng.random() < 0.4:       # a site with all its links is down
                at, n_ = rng.randrange(T), rng.choice([1, 3, 8])
                ops += [{"k": "loss", "at": at, "l": i, "n": n_, "by": 1} for i in hit]
        if st == "blackout" and rng.random() < 0.6:
            ops += [{"k": "weak", "at": 0, "l": i, "n": T, "by": rng.choice([0.2, 0.4, 0.6]), "seed": rng.getrandbits(16)} for i in range(L)]
        if st == "blackout" and rng.random() < 0.4:     # many short gaps at the start of the record
            T = rng.choice([6, 10])
            ops = [dict(o, at=0) for o in ops if o["k"] == "weak"]
            for i in range(L):
                ops += [{"k": "loss", "at": t, "l": i, "n": 1, "by": 1} for t in range(T) if rng.random() < 0.4]
        elif rng.random() < 0.5:          # losses early, then the link is back
            for o in ops:
                o["at"] = rng.randrange(max(1, T // 3))
        for _ in range(rng.randint(0, 2)):
            ops.append({"k": "poll", "at": round(rng.uniform(3, T + 3), 2),
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 200)], p_none=0.9)})
        f = {"L": L, "T": T, "wait": rng.choice([0.9, 2, 4]), "jitter": rng.choice([0, 0, 0.1]), "seed": rng.getrandbits(30),
             "evt": rng.choice([2, 4, 8]), "flip": rng.choice([0, 0.1, 0.3]), "noise": rng.choice([0.1, 0.5]), "unk": rng.choice(["nan", "keep"])}
        if st in ("chain", "linear"):
            f["wlost"] = rng.choice([0, 0, 0, 0.05, 0.2])
        variety(rng, f, par)
        par["lose"] = rng.choice(["both", "both", "min", "max"])
        return {"feed": f, "stage": st, "par": par, "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def setup(self, plan):
        self.plan_ = plan
        self.x, self.wet, self.spread = signal(plan["feed"])
        self.par = dict(plan["par"])
        if plan["stage"] == "torch":
            self.par["net"] = make_net(self.par)
        self.ncmp = 0
        self.memo = {}

    def poll(self, me, op):
        me.nofault += 1
        st = self.plan_["stage"]
        h = self.have()
        n = h.shape[1]
        if n < {"mlp": 42, "mlpc": 42, "torch": self.par["W"], "stft": stft_min(self.par)}.get(st, 2) or h.all():
            me.nofault -= 1
            return
        x = np.where(h, self.x[:, :n], np.nan)
        wet = self.wet[:, :n].copy()
        if self.plan_["feed"]["unk"] == "nan":
            wet[~h] = np.nan
        if self.plan_["feed"].get("wlost"):
            # the wet/dry flags come from elsewhere and get lost, too
            wet[np.random.RandomState(self.plan_["feed"]["seed"] & 0xFFFF).uniform(size=self.wet.shape)[:, :n] < self.plan_["feed"]["wlost"]] = np.nan
        spread = self.spread[:, :n].copy()
        if self.plan_["par"]["seed"] % 2:
            spread[~h] = np.nan
        r = {"x": x, "wet": wet, "spread": spread, "n": n}
        if st in ("nearby", "reflevel", "mlp", "mlpc"):
            # minimum and maximum (or both channels) come in separate messages
            if self.par["lose"] == "min":
                r.update(x2=self.x[:, :n].copy(), spread=self.spread[:, :n].copy())
            elif self.par["lose"] == "max":
                r.update(x=self.x[:, :n].copy(), x2=x)
        twin = {"x": self.x[:, :n].copy(), "wet": self.wet[:, :n].copy(), "spread": self.spread[:, :n].copy(), "n": n}
        fn = getattr(stages, "mlp" if st == "mlpc" else st)
        mods = self.proc.modules
        t = outcome(lambda: fn(mods, twin, self.par))
        me.nofault -= 1
        self.s.event("call", me.op["id"], st, n, int((~h).sum()))
        o = outcome(lambda: fn(mods, r, self.par))
        me.nofault += 1
        fault = op_fault(self.s, me)
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "")
        self.nchecks += 1
        if t[0] == "ok":
            if o[0] == "ok":
                self.ncmp += 1
                self.judge(st, {k: np.asarray(v, float) for k, v in o[1].items()}, {k: np.asarray(v, float) for k, v in t[1].items()}, h, wet)
            elif not fault:
                self.bad("fails", "%s fails with lost samples: %s %s" % (st, o[1], o[2]))
        me.nofault -= 1

    # ---- oracle

    def judge(self, st, a, t, h, wet):
        L, n = h.shape
        for k in a:
            if a[k].shape != (L, n):
                return self.bad("shape", "%s has shape %s for a record of shape %s" % (k, a[k].shape, (L, n)))
        tol = 1e-6 if st in ("mlp", "mlpc", "torch", "stft") else 1e-9
        same = {k: (a[k] == t[k]) | (np.isnan(a[k]) & np.isnan(t[k])) | (np.abs(a[k] - t[k]) <= tol * (1 + np.abs(t[k]))) for k in a}
        getattr(self, "j_" + st)(a, t, same, h, wet)
        # lost samples are not rain
        for k in ("R", "nR"):
            if k in a:
                self.need(np.isnan(a[k]), ~h, "rain-from-nothing-" + k, k, a, t)
        if st == "blackout":
            return
        # links that lost nothing, and times before the first loss
        hh = h & ~np.isnan(wet) if st in ("chain", "linear") and self.plan_["feed"].get("wlost") else h
        cl = np.asarray(self.par.get("cluster", list(range(L))) if st == "nearby" else range(L))
        lag = {"nearby": 2, "mlpc": 381, "torch": self.par["W"], "stft": 10 ** 6}.get(st, 0)
        for l in range(L):
            lossy = ~hh[cl == cl[l]].all(0)
            first = np.argmax(lossy) if lossy.any() else n + lag
            m = np.zeros((L, n), bool)
            m[l, :max(0, first - lag)] = True
            for k in a:
                if k == "linear" and lossy.any():
                    continue
                self.need(same[k], m, "other-link-" + k if not lossy.any() else "before-loss-" + k, k, a, t)

    def need(self, ok, where, cls, k, a, t):
        b = where & ~ok
        if b.any():
            l, i = np.argwhere(b)[0]
            self.bad(cls, "%s of link %d at step %d is %r, without losses %r" % (k, l, i, float(a[k][l, i]), float(t[k][l, i])))

    def back(self, h, dry, n_):
        """Steps since which the link has been back and dry for n_ samples, with no loss after."""
        out = np.zeros(h.shape, bool)
        for l in range(h.shape[0]):
            run, ok = 0, False
            for i in range(h.shape[1]):
                if not h[l, i]:
                    run, ok = 0, False
                    continue
                run = run + 1 if dry[l, i] else 0
                ok = ok or run >= n_
                out[l, i] = ok
        return out

    def j_chain(self, a, t, same, h, wet):
        if self.plan_["feed"].get("wlost"):
            h = h & ~np.isnan(wet)
        rec = self.back(h, wet == 0, self.par["navg"])
        for k in ("baseline", "waa", "R"):
            self.need(same[k], rec, "lasting-" + k, k, a, t)
        self.need(same["baseline"] | np.isnan(a["baseline"]), np.ones_like(h), "guessed-baseline", "baseline", a, t)
        self.need(np.isnan(a["baseline"]), np.isnan(wet), "guessed-baseline", "baseline", a, t)
        if self.par["waa"] != "schleiss":
            self.need(same["R"] | np.isnan(a["R"]), np.ones_like(h), "wrong-rain", "R", a, t)

    def j_linear(self, a, t, same, h, wet):
        L, n = h.shape
        if self.plan_["feed"].get("wlost"):
            h = h & ~np.isnan(wet)
        if not (self.par["ign"] and (self.plan_["feed"]["unk"] == "nan" or self.plan_["feed"].get("wlost"))):
            self.need(same["linear"] | np.isnan(a["linear"]), np.ones_like(h), "guessed-linear", "linear", a, t)
        rec = self.back(h, wet == 0, 2)
        for l in range(L):
            for i in range(n):
                if rec[l, i]:
                    e = i + 1
                    while e < n and h[l, e] and wet[l, e] != 0:
                        e += 1
                    rec[l, i] = e < n and h[l, e]
        self.need(same["linear"], rec, "lasting-linear", "linear", a, t)

    def j_blackout(self, a, t, same, h, wet):
        L, n = h.shape
        mask, thr = a["mask"] > 0, self.par["thr"]
        rsl = -self.x[:, :n]
        self.need(~mask, h, "delivered-masked", "mask", a, t)
        low = h & (rsl < thr)
        none = np.zeros((L, 1), bool)
        for k, gap in (("gapstart", np.hstack([~h[:, 1:], none])), ("gapend", np.hstack([none, ~h[:, :-1]]))):
            self.need((a[k] > 0) == (low & gap), np.ones_like(h), "wrong-" + k, k, a, t)
        no, yes = np.zeros_like(h), np.zeros_like(h)
        for l in range(L):
            i = 0
            while i < n:
                if h[l, i]:
                    i += 1
                    continue
                e = i
                while e < n and not h[l, e]:
                    e += 1
                lo = i > 0 and rsl[l, i - 1] < thr
                hi = e < n and rsl[l, e] < thr
                # (the repository's test pins that a single sample between two gaps starts no blackout)
                if lo and hi and (i == 1 or h[l, i - 2]):
                    yes[l, i:e] = True
                if not lo and not hi:
                    no[l, i:e] = True
                i = e
        self.need(~mask, no, "loss-taken-for-blackout", "mask", a, t)
        self.need(mask, yes, "blackout-missed", "mask", a, t)

    def j_nearby(self, a, t, same, h, wet):
        L, n = h.shape
        p = self.par
        look = {"nwet": 4 + 2, "F": 4 + 4, "pref": 4 + 2 + p["ndry"], "pcmin": 6 + p["ndry"], "pcmax": 6 + p["ndry"], "nR": 8 + p["ndry"]}
        cl = np.asarray(p["cluster"])
        for k, lb in look.items():
            lb += 2
            m = np.zeros_like(h)
            for l in range(L):
                lossy = ~h[cl == cl[l]].all(0)
                for i in range(n):
                    m[l, i] = not lossy[max(0, i - lb):i + 3].any()
            self.need(same[k], m, "lasting-" + k, k, a, t)

    def j_reflevel(self, a, t, same, h, wet):
        L, n = h.shape
        m = np.zeros_like(h)
        for l in range(L):
            for i in range(n):
                m[l, i] = h[l, max(0, i - self.par["ndry"] + 1):i + 1].all()
        for k in a:
            self.need(same[k], m, "lasting-" + k, k, a, t)

    def j_mlp(self, a, t, same, h, wet):
        touched = np.array([[not h[l, max(0, i - 40):i + 1].all() for i in range(h.shape[1])] for l in range(h.shape[0])])
        self.need(np.isnan(a["mlp"]), touched, "classified-without-data", "mlp", a, t)
        self.need(same["mlp"], ~touched, "lasting-mlp", "mlp", a, t)

    def j_mlpc(self, a, t, same, h, wet):
        n = h.shape[1]
        touched = np.array([[not h[l, max(0, i - 20):i + 20].all() for i in range(n)] for l in range(h.shape[0])])
        self.need(np.isnan(a["mlp"]), touched, "classified-without-data", "mlp", a, t)
        far = np.array([[h[l, max(0, i - 381):i + 382].all() for i in range(n)] for l in range(h.shape[0])])
        self.need(same["mlp"], far, "lasting-mlp", "mlp", a, t)

    def j_torch(self, a, t, same, h, wet):
        L, n = h.shape
        W, back = self.par["W"], int(self.par["ref"] / 2)
        first = np.arange(n) + back - W         # of the window with this target
        full = (first >= 0) & (first + W <= n)
        lost = np.array([[not h[l, max(0, s):s + W].all() for s in first] for l in range(L)])
        self.need(np.isnan(a["cnn"]), lost | ~full[None, :], "classified-without-data", "cnn", a, t)
        self.need(same["cnn"], ~lost, "lasting-cnn", "cnn", a, t)

    def j_stft(self, a, t, same, h, wet):
        q = self.par["stft"]
        L, n = h.shape
        s = (q["W"] - 1) // 2
        touched = np.array([[not h[l, max(0, i - s):max(0, i - s + q["W"])].all() for i in range(n)] for l in range(L)])
        self.need(np.isnan(a["psd"]) & np.isnan(a["swet"]), touched, "classified-without-data", "psd", a, t)
        m = ~touched
        for l in range(L):
            if touched[l, q["dry"][0]:q["dry"][1]].any():       # another reference spectrum
                m[l] = False
        for k in a:
            self.need(same[k], m, "lasting-" + k, k, a, t)

    def nontrivial(self):
        return self.ncmp > 0
