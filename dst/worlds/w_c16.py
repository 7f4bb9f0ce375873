"""C16: in real-time use, published results are not rewritten by later data."""
import os

import numpy as np

from . import stages, w_c08
from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults

# output -> steps after which a published value is final
LAG = {"nwet": 2, "pref": 2, "pcmin": 2, "pcmax": 2, "nR": 2, "F": 0}
LINKS = {"chain": 3, "linear": 3, "blackout": 6, "nearby": 5, "reflevel": 3, "mlp": 1, "mlpc": 1, "torch": 2, "cnn": 2, "stft": 2}


def signal(f):
    """Total loss, classification and spread of every link, as sent."""
    r = np.random.RandomState((f["seed"] + 7) & 0x7FFFFFFF)
    L, T = f["L"], f["T"]
    wet = np.zeros(T, bool)
    t = r.randint(0, 6)
    while t < T:
        d = r.randint(1, f["evt"] + 1)
        wet[t:t + d] = True
        t += d + r.randint(1, f["evt"] * 2 + 1)
    rain = wet * r.gamma(1.5, 4, T)
    W = np.tile(wet, (L, 1))
    flip = r.uniform(size=W.shape) < f["flip"]
    W = W ^ flip
    x = f["lvl"] + r.uniform(-5, 5, (L, 1)) + rain[None, :] * r.uniform(0.5, 1.2, (L, 1)) + r.normal(0, f["noise"], (L, T)) + np.cumsum(r.normal(0, 0.02, (L, T)), 1)
    if f["jump"]:
        for _ in range(1 + T // 12):
            l, k = r.randint(L), r.randint(T)
            x[l, k:k + r.choice([1, 1, 3, T])] += r.choice([-40.0, -15.0, 25.0, 60.0])
    if f["quant"]:
        x = np.round(x / f["quant"]) * f["quant"]
    return x, W.astype(float), r.uniform(0, 2, (L, T)) if not f["quant"] else np.round(r.uniform(0, 2, (L, T)))


def variety(rng, f, par):
    """Level, steps and resolution of the signal."""
    f.update(lvl=rng.choice([50, 50, 20, 80]), jump=rng.random() < 0.35, quant=rng.choice([0, 0, 0.3, 1.0]))
    par["thr"] -= f["lvl"] - 50


def params(rng, stage, L):
    f = [rng.choice([18.0, 23.0, 38.0]) for _ in range(L)]
    ln = [rng.choice([0.8, 2.5, 7.0]) for _ in range(L)]
    p = {"len": ln, "f": f, "navg": rng.choice([1, 1, 2, 3, 5]), "form": rng.choice(["np", "da"]), "waa": rng.choice(["schleiss", "leijnse", "pastorek"]),
         "waamax": rng.choice([2.3, 1.0]), "tau": rng.choice([15, 5, 3]), "rmin": rng.choice([0.1, 0.0, 1.0]), "ign": rng.random() < 0.4,
         "thr": rng.choice([-60, -55, -52]), "radius": rng.choice([15, 30]), "minl": rng.choice([1, 2, 3]), "tper": rng.choice([1, 2]), "minh": rng.choice([0.5, 1]),
         "ndry": rng.choice([2, 4, 8]), "minp": rng.choice([1, 2]), "fthr": rng.choice([-32.5, -3.0, None]), "model": rng.choice(["rad_online", "rg_online"]),
         "bs": rng.choice([3, 8, 32]), "ref": rng.choice([2, 4, 8, 13]), "W": rng.choice([4, 7, 10]), "seed": rng.getrandbits(20)}
    p["ref"] = min(p["ref"], 2 * p["W"])
    if stage == "stft":
        W = rng.choice([4, 6, 7, 10])
        a = rng.choice([0, 2, 5])
        p["stft"] = {"W": W, "thr": rng.choice([0.5, 2.0, 10.0]), "fdiv": rng.choice([1e-3, 3e-3, 5e-3]), "dry": [a, a + W // 2 + rng.choice([2, 4])], "hann": rng.random() < 0.3}
    if stage == "cnn":
        p["ref"] = rng.choice([60, 60, 2, 30, 180, 360])
    if stage == "mlpc":
        p["model"] = rng.choice(["rad", "rg"])
    p["site"] = [[50 + rng.uniform(0, .05) for _ in range(L)], [8 + rng.uniform(0, .05) for _ in range(L)],
                 [50 + rng.uniform(0, .05) for _ in range(L)], [8 + rng.uniform(0, .05) for _ in range(L)]]
    return p


def stft_min(p):
    """Length of a record with a complete dry period."""
    return p["stft"]["dry"][1] + p["stft"]["W"] if "stft" in p else 0


def make_net(p):
    import torch

    class Net(torch.nn.Module):
        def forward(self, x):
            return torch.sigmoid((x[:, 0, :] * self.w).sum(1) * 0.01)
    n = Net()
    n.w = torch.tensor(np.random.RandomState(p["seed"]).uniform(-1, 1, p["W"]).astype(np.float32))
    n.eval()
    n.window_size = p["W"]
    return n


class World(FeedWorld):
    modules = [stages.BL, stages.WA, stages.KR, stages.BO, stages.WD, stages.RR, stages.MLP, stages.RUN, stages.STFT]
    quick = (6000, 75)
    real = modules + ["numpy, scipy, xarray, bottleneck, scikit-learn, torch; numba code as plain Python"]
    assumptions = ["the wet/dry flags given to the baseline and reference level functions do not change afterwards",
                   "a closed step of the collector is not reopened", "numba compiles the loops faithfully (they run as plain Python here)",
                   "the trained CNN is replaced by a small model on windows"]
    rule = ("plans: one processing stage (chain of baseline, wet antenna and rain rate; linear baseline; blackout mask; nearby-link chain; "
            "reference level; MLP; CNN windows; STFT classifier), 1-5 links, 6-70 steps (centred MLP: up to 560), 0-8 transport faults, 2-7 polls that "
            "reprocess the record so far, some interrupted; non-trivial: more than one poll and a fault fired")

    def prepare(self):
        super().prepare()
        import tqdm
        import torch
        torch.set_num_threads(1)
        if not w_c08.JIT:
            w_c08._jit_models()
        tqdm.tqdm.monitor_interval = 0

    def plan(self, rng, tier):
        st = rng.choices(["chain", "linear", "blackout", "nearby", "reflevel", "mlp", "mlpc", "torch", "cnn", "stft"], [8, 4, 4, 5, 4, 3, 1, 3, 1, 3])[0]
        L = rng.randint(1, LINKS[st])
        if st == "nearby":
            L = rng.choice([3, 4, 5])
        T = rng.choice([6, 10, 16, 25, 40])
        if st == "mlp":
            T = rng.choice([46, 55, 70])
        elif st == "mlpc":
            T = rng.choice([450, 520, 560])
        elif st == "nearby":
            T = rng.choice([8, 12, 18])
        elif st == "stft":
            T = rng.choice([25, 32, 45])
        elif st == "cnn":
            T = rng.choice([195, 215])
        if st not in ("mlpc", "nearby", "torch", "cnn") and rng.random() < 0.03:      # a long record
            T, L = rng.choice([150, 400, 1500]), min(L, 2)
        ops = feed_faults(rng, L, T, rng.choice([0, 1, 2, 4, 8]))
        for _ in range(rng.randint(2, 7) if st != "mlpc" else 3):
            ops.append({"k": "poll", "at": round(rng.uniform({"mlp": 40, "cnn": 180}.get(st, 1), T + 6), 2),
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 200)], p_none=0.85)})
        f = {"L": L, "T": T, "wait": rng.choice([0.9, 2, 4]), "jitter": rng.choice([0, 0.2, 0.2, 1.0]), "seed": rng.getrandbits(30),
             "evt": rng.choice([2, 4, 8]), "flip": rng.choice([0, 0.1, 0.3]), "noise": rng.choice([0.1, 0.5]), "unk": rng.choice(["nan", "nan", "keep"])}
        par = params(rng, st, L)
        variety(rng, f, par)
        return {"feed": f, "stage": st, "par": par, "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def setup(self, plan):
        self.plan_ = plan
        self.x, self.wet, self.spread = signal(plan["feed"])
        self.par = dict(plan["par"])
        if plan["stage"] == "torch":
            self.par["net"] = make_net(self.par)
        elif plan["stage"] == "cnn":
            self.par["path"] = os.path.join(self.root, "net.pt")
            with open(self.par["path"], "wb") as f:
                f.write(w_c08.JIT[self.par["seed"] % 2][0])
        self.pub = {}
        self.worked = 0
        self.npub = 0

    def record(self):
        h = self.have()
        n = h.shape[1]
        x = np.where(h, self.x[:, :n], np.nan)
        wet = self.wet[:, :n].copy()
        if self.plan_["feed"]["unk"] == "nan":
            wet[~h] = np.nan
        return {"x": x, "wet": wet, "spread": self.spread[:, :n].copy(), "n": n}

    def poll(self, me, op):
        me.nofault += 1
        r = self.record()
        st, n = self.plan_["stage"], r["n"]
        me.nofault -= 1
        if n < {"mlp": 42, "mlpc": 42, "torch": self.par["W"], "cnn": 180, "stft": stft_min(self.par)}.get(st, 1):
            return
        fn = getattr(stages, "mlp" if st == "mlpc" else st)
        mods = self.proc.modules
        self.s.event("call", me.op["id"], st, n)
        o = outcome(lambda: fn(mods, r, self.par))
        me.nofault += 1
        fault = op_fault(self.s, me)
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "")
        self.nchecks += 1
        if o[0] == "ok":
            self.worked = max(self.worked, n)
            for name, v in o[1].items():
                if name != "gapstart":      # needs the next sample
                    self.compare(st, name, np.asarray(v, float), r)
        elif not fault and self.worked and n >= self.worked:
            self.bad("stops-working", "%s worked for %d steps but fails for %d: %s %s" % (st, self.worked, n, o[1], o[2]))
        me.nofault -= 1

    def compare(self, st, name, v, r):
        n = r["n"]
        if v.shape != r["x"].shape:
            return self.bad("shape", "%s has shape %s for a record of shape %s" % (name, v.shape, r["x"].shape))
        tol = 1e-3 if st == "cnn" else 1e-6 if st in ("mlp", "mlpc", "torch", "stft") else 1e-9
        old = self.pub.get(name)
        if old is not None:
            m = old.shape[1]
            d = ~np.isnan(old) & (v[:, :m] != old) & ~(np.abs(v[:, :m] - old) <= tol * (1 + np.abs(old)))
            if d.any():
                l, k = np.argwhere(d)[0]
                self.bad("rewritten-" + name, "%s of link %d at step %d was %r with %d steps of data and is %r with %d"
                         % (name, l, k, float(old[l, k]), self.pub[name + "#"], float(v[l, k]), n))
        # the linear baseline of an open wet period is missing; a number given for it must at least stay
        weak = self.pub.get(name + "~")
        if weak is not None:
            m = weak.shape[1]
            w = v[:, :m]
            d = ~np.isnan(weak) & ~np.isnan(w) & ~(np.abs(w - weak) <= tol * (1 + np.abs(weak)))
            if d.any():
                l, k = np.argwhere(d)[0]
                self.bad("rewritten-" + name, "%s of link %d at step %d was %r with %d steps of data and is %r with %d"
                         % (name, l, k, float(weak[l, k]), self.pub[name + "#"], float(w[l, k]), n))
        if name == "linear":
            self.pub[name + "~"] = v.copy()
        # what is final now
        fin = np.zeros(v.shape, bool)
        if name == "linear":
            for l in range(v.shape[0]):
                dry = np.where(r["wet"][l] == 0)[0]
                if len(dry):
                    fin[l, :dry[-1]] = True
        else:
            lag = 378 if st == "mlpc" else (LAG.get(name, 0) if st == "nearby" else 0)
            fin[:, :max(0, n - lag)] = True
        self.npub += int((fin & ~np.isnan(v)).sum())
        new = np.where(fin, v, np.nan)
        if old is not None and old.shape[1] <= n:
            keep = ~np.isnan(old)
            new[:, :old.shape[1]][keep] = old[keep]
        self.pub[name] = new
        self.pub[name + "#"] = n

    def nontrivial(self):
        return super().nontrivial() and self.npub > 0
