"""C22: results of a record are those of a processor that takes one sample after the other.

Small executable reference models keep a bounded state per link and are fed step by step with what the collector
closed; pycomlink processes the record so far, or the part of it since a restart, as a whole."""
import numpy as np

from . import stages
from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults
from .w_c16 import signal, params, variety, stft_min

NAN = float("nan")
# ITU-R P.838-3, horizontal polarisation
ITU = {18.0: (0.07078, 1.0818), 23.0: (0.1286, 1.0214), 38.0: (0.4001, 0.8816)}
LINKS = {"chain": 4, "linear": 4, "blackout": 6, "nearby": 6, "reflevel": 4, "mlp": 2, "stft": 3, "minmax": 3}


def isnan(v):
    return v != v


class Constant:
    """Baseline of a link: the signal while dry; the mean of the last n baseline values while wet; unknown after an
    unknown state until it is dry again.  The first n samples are taken as they are."""

    def __init__(self, n):
        self.n, self.last, self.wet = n, [], NAN

    def step(self, x, wet):
        if isnan(wet):
            b = NAN
        elif len(self.last) < self.n or wet == 0:
            b = x
        elif self.wet == 0:
            b = sum(self.last[-self.n:]) / self.n
        else:
            b = self.last[-1]
        self.last.append(b)
        self.wet = wet
        return b


class Schleiss:
    """Wet antenna attenuation grows towards its maximum while wet, and never exceeds it or the attenuation.  None:
    not specified (after a gap, until the next dry sample)."""

    def __init__(self, mx, tau):
        self.mx, self.tau, self.w, self.first = mx, tau, 0.0, True

    def step(self, A, wet):
        if self.first:
            self.first, self.w = False, 0.0
            return None if isnan(A) else 0.0
        if isnan(A) or isnan(wet):
            self.w = None
        elif wet:
            self.w = None if self.w is None else min(A, self.mx, self.w + (self.mx - self.w) * 3 / self.tau)
        else:
            self.w = min(A, self.mx)
        return self.w


def linear(x, wet, ign):
    """Line from the last dry sample before to the first dry sample after a wet period; missing if a state in it is
    unknown (unless that is to be ignored) or it has no end; the signal while dry."""
    n = len(x)
    st = [0.0] + list(wet[1:])
    if ign:
        for i in range(1, n):
            st[i] = st[i - 1] if isnan(st[i]) else st[i]
    out = [NAN] * n
    i = 0
    while i < n:
        if st[i] == 0:
            if isnan(out[i]):
                out[i] = x[i]
            i += 1
            continue
        e = i
        while e < n and st[e] != 0:
            e += 1
        a = i - 1
        if e < n:
            bad = any(isnan(v) for v in st[i:e]) or isnan(x[a]) or isnan(x[e])
            for k in range(a, e + 1):
                out[k] = NAN if bad else x[a] + (x[e] - x[a]) * (k - a) / (e - a)
            if bad and any(isnan(v) for v in st[i:e]):
                out[e] = "nan"
        i = e
    return [NAN if v == "nan" else v for v in out]


class Blackout:
    def __init__(self, thr):
        self.thr, self.prev, self.gap = thr, None, False

    def step(self, v):
        """Is this missing sample part of a blackout, judged by the sample before the gap?"""
        if not isnan(v):
            self.prev = v
            return False
        return self.prev is not None and self.prev < self.thr


class Reference:
    """Median of the mean levels of the dry steps among the last n steps."""

    def __init__(self, n, minp):
        self.n, self.minp, self.ring = n, minp, []

    def step(self, lo, hi, wet):
        self.ring = (self.ring + [(lo + hi) / 2 if wet == 0 else NAN])[-self.n:]
        v = sorted(a for a in self.ring if not isnan(a))
        if len(v) < self.minp:
            return NAN
        return v[len(v) // 2] if len(v) % 2 else (v[len(v) // 2 - 1] + v[len(v) // 2]) / 2


def correct(lo, hi, wet, ref):
    cmin = lo if lo < ref and wet == 1 else ref
    cmax = hi if cmin < ref and hi < ref else ref
    return NAN if isnan(lo) else cmin, NAN if isnan(hi) else cmax


def rate(A, f, length):
    a, b = ITU[f]
    return (A / (a * length)) ** (1 / b)


def retrieve(ref, cmin, cmax, F, f, length, mx, thr):
    lo, hi = (rate(max(0.0, ref - v - mx), f, length) if not isnan(ref - v) else NAN for v in (cmax, cmin))
    if thr is not None and F <= thr:
        return NAN
    return 0.33 * hi + 0.67 * lo


def med(v):
    v = sorted(a for a in v if not isnan(a))
    if not v:
        return NAN
    return v[len(v) // 2] if len(v) % 2 else (v[len(v) // 2 - 1] + v[len(v) // 2]) / 2


class Nearby:
    """Deviation of each link from the maximum of its last `period` levels (at least `need` of them delivered), medians
    over the links within reach, if there are more than `minl` with data."""

    def __init__(self, p, near):
        self.p, self.near = p, near
        self.iv = p.get("intv", 15)
        self.period, self.need = int(p["tper"] * 60 / self.iv), int(p["minh"] * 60 / self.iv)
        self.ring, self.dp, self.f = [], [], []

    def step(self, lo):
        self.ring = (self.ring + [lo])[-self.period:]
        L, p = len(lo), self.p
        d = []
        for l in range(L):
            v = [r[l] for r in self.ring if not isnan(r[l])]
            d.append(lo[l] - max(v) if len(v) >= self.need and not isnan(lo[l]) else NAN)
        wet, f = [], []
        for l in range(L):
            ns = self.near[l]
            w = g = NAN
            if len(ns) > p["minl"]:
                if sum(not isnan(d[j]) for j in ns) > p["minl"]:
                    mp, mpl = med([d[j] for j in ns]), med([d[j] / p["len"][j] for j in ns])
                    w = float(mp < -1.4 and mpl < -0.7)
                    if min(abs(mp + 1.4), abs(mpl + 0.7)) < 1e-9:
                        w = None
                    g = d[l] / p["len"][l] - mpl
            wet.append(w)
            f.append(g)
        self.dp.append(d)
        self.f = (self.f + [f])[-self.period:]
        F = [sum(v[l] for v in self.f) * self.iv / 60 if len(self.f) == self.period else NAN for l in range(L)]
        return wet, F, d


def distance(lat1, lon1, lat2, lon2):
    a, b, c, d = np.radians([lat1, lon1, lat2, lon2])
    return 6367 * 2 * np.arcsin(np.sqrt(np.sin((c - a) / 2) ** 2 + np.cos(a) * np.cos(c) * np.sin((d - b) / 2) ** 2))


class World(FeedWorld):
    modules = [stages.BL, stages.WA, stages.KR, stages.BO, stages.WD, stages.RR, stages.MLP, stages.STFT]
    quick = (6000, 60)
    real = modules + ["numpy, scipy, xarray, bottleneck, scikit-learn; numba code as plain Python"]
    assumptions = ["numba compiles the loops faithfully (they run as plain Python here)", "a closed step of the collector is not reopened",
                   "wet antenna attenuation after a gap is not judged until the next dry sample; blackout masks of gaps next to single samples are not judged",
                   "the nearby-link wet/dry state of the first and the last two steps is not judged (an existing test pins them as wet)"]
    rule = ("plans: one processing stage (chain of baseline, wet antenna and rain rate; linear baseline; blackout markers and mask; nearby-link chain; "
            "reference level; online MLP; STFT classifier; min-max rain rate), 1-6 links, 6-70 (rarely 1500) steps, 0-8 transport faults, 1-4 polls that process the record "
            "so far or since a restart; non-trivial: a result was compared with the reference model and a fault fired")

    def prepare(self):
        super().prepare()
        import tqdm
        tqdm.tqdm.monitor_interval = 0

    def plan(self, rng, tier):
        st = rng.choices(list(LINKS), [9, 4, 3, 5, 5, 1.5, 3, 2])[0]
        L = rng.randint(1, LINKS[st])
        T = rng.choice([6, 10, 16, 25, 40])
        par = params(rng, st, L)
        if st == "mlp":
            T = rng.choice([46, 60, 90])
        elif st == "stft":
            T = rng.choice([25, 40, 60])
        elif st == "nearby":
            T = rng.choice([8, 12, 20, 30])
            L = rng.choice([2, 3, 4, 6])
            par = params(rng, st, L)
            par["site"] = [[round(v + rng.choice([0, 0, 0.15]), 4) for v in row] for row in par["site"]]
            par["intv"] = rng.choice([15, 15, 15, 10, 30])
        if st not in ("nearby", "mlp") and rng.random() < 0.03:
            T, L = rng.choice([150, 400, 1500]), min(L, 2)
            par = params(rng, st, L)
        if "stft" in par:
            par["stft"]["fdiv"] = rng.choice([1e-3, 3.1e-3, 4.4e-3])
        par["navg"] = rng.choice([1, 1, 2, 3, 5, 8])
        par.update(k=rng.choice([90, 30]), lvl=50)
        ops = feed_faults(rng, L, T, rng.choice([0, 1, 2, 4, 8]))
        for _ in range(rng.randint(0, 3)):
            ops.append({"k": "poll", "at": round(rng.uniform(3, T + 3), 2), "from": rng.choice([0, 0, 0, 1, 3, 9, 20]),
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 200)], p_none=0.85)})
        f = {"L": L, "T": T, "wait": rng.choice([0.9, 2, 4]), "jitter": rng.choice([0, 0, 0.1, 0.5]), "seed": rng.getrandbits(30),
             "evt": rng.choice([2, 4, 8]), "flip": rng.choice([0, 0.1, 0.3]), "noise": rng.choice([0.1, 0.5]), "unk": rng.choice(["nan", "keep"]),
             "wlost": rng.choice([0, 0, 0.05, 0.2])}
        variety(rng, f, par)
        par["lose"] = rng.choice(["both", "both", "min", "max"])
        par["types"] = [rng.choice(["float", "float", "int"]), rng.choice(["float", "bool", "int", "int8"])]
        if par["types"][0] == "int" and rng.random() < 0.7:
            f["quant"] = 1.0
        return {"feed": f, "stage": st, "par": par, "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def setup(self, plan):
        self.plan_ = plan
        self.x, self.wet, self.spread = signal(plan["feed"])
        self.par = dict(plan["par"])
        self.ncmp = 0

    def record(self, op):
        h = self.have()
        n = h.shape[1]
        x = np.where(h, self.x[:, :n], np.nan)
        wet = self.wet[:, :n].copy()
        f = self.plan_["feed"]
        if f["unk"] == "nan":
            wet[~h] = np.nan
        if f["wlost"]:
            wet[np.random.RandomState(f["seed"] & 0xFFFF).uniform(size=self.wet.shape)[:, :n] < f["wlost"]] = np.nan
        r = {"x": x, "wet": wet, "spread": self.spread[:, :n].copy()}
        if self.plan_["stage"] in ("nearby", "reflevel", "mlp"):
            if self.par["lose"] == "min":
                r["x2"] = self.x[:, :n].copy()
            elif self.par["lose"] == "max":
                r.update(x=self.x[:, :n].copy(), x2=x)
        a = op.get("from", 0)
        r = {k: v[:, a:].copy() for k, v in r.items()}
        r["n"] = r["x"].shape[1]
        return r

    def give(self, r):
        """As the consumer has it: levels as integers, states as flags, if there are no gaps."""
        g = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in r.items()}
        for k, t in zip(("x", "wet"), self.par["types"]):
            if t != "float" and not np.isnan(g[k]).any() and (g[k] == np.round(g[k])).all():
                g[k] = g[k].astype(t)
        for k in ("x2", "spread"):
            if k in g and g["x"].dtype == int and not np.isnan(g[k]).any() and (g[k] == np.round(g[k])).all():
                g[k] = g[k].astype(int)
        return g

    def poll(self, me, op):
        me.nofault += 1
        st = self.plan_["stage"]
        r = self.record(op)
        n = r["n"]
        if n < {"mlp": 42, "stft": stft_min(self.par)}.get(st, 1):
            me.nofault -= 1
            return
        mods = self.proc.modules
        if st == "minmax":
            fn = self.minmax
        else:
            fn = getattr(stages, st)
        give = self.give(r)
        me.nofault -= 1
        self.s.event("call", me.op["id"], st, n)
        o = outcome(lambda: fn(mods, give, self.par))
        me.nofault += 1
        fault = op_fault(self.s, me)
        if fault:
            # the consumer tries again
            give = self.give(r)
            o = outcome(lambda: fn(mods, give, self.par))
        self.s.event("return", me.op["id"], o[0], o[1] if o[0] == "exc" else "")
        self.nchecks += 1
        if o[0] == "ok":
            a = {k: np.asarray(v, float) for k, v in o[1].items()}
            for k in a:
                if a[k].shape != r["x"].shape:
                    self.bad("shape", "%s has shape %s for a record of shape %s" % (k, a[k].shape, r["x"].shape))
                    break
            else:
                self.ncmp += 1
                getattr(self, "j_" + st)(a, r)
        else:
            self.bad("fails", "%s of %d steps fails: %s %s" % (st, n, o[1], o[2]))
        me.nofault -= 1

    # ---- comparison with the reference models

    def cmp(self, name, l, i, got, want, why="", tol=1e-9):
        if want is None or (isnan(got) and isnan(want)) or abs(got - want) <= tol * (1 + abs(want)):
            return True
        self.bad("wrong-" + name, "%s of link %d at step %d is %r, sample by sample %r%s" % (name, l, i, float(got), float(want), why))
        return False

    def j_chain(self, a, r):
        p = self.par
        for l in range(r["x"].shape[0]):
            base, waa = Constant(p["navg"]), Schleiss(p["waamax"], p["tau"])
            for i in range(r["n"]):
                x, wet = float(r["x"][l, i]), float(r["wet"][l, i])
                b = base.step(x, wet)
                if not self.cmp("baseline", l, i, a["baseline"][l, i], b, ", averaged over %d" % p["navg"]):
                    return
                A = x - b
                if p["waa"] == "schleiss":
                    if not self.cmp("waa", l, i, a["waa"][l, i], waa.step(A, wet)):
                        return
                elif isnan(A) != isnan(a["waa"][l, i]):
                    return self.bad("wrong-waa", "wet antenna attenuation of link %d at step %d is %r for attenuation %r" % (l, i, float(a["waa"][l, i]), A))
                A -= a["waa"][l, i]
                R = NAN if isnan(A) else rate(A, p["f"][l], p["len"][l]) if A >= 0 else 0.0
                if abs(A) < 1e-9 or abs(R - p["rmin"]) < 1e-9:
                    R = None
                elif R < p["rmin"]:
                    R = 0.0
                if not self.cmp("R", l, i, a["R"][l, i], R, ", attenuation %r" % A):
                    return

    def j_linear(self, a, r):
        for l in range(r["x"].shape[0]):
            want = linear([float(v) for v in r["x"][l]], [float(v) for v in r["wet"][l]], self.par["ign"])
            for i in range(1, r["n"]):
                if not self.cmp("linear", l, i, a["linear"][l, i], want[i], tol=1e-8):
                    return

    def j_blackout(self, a, r):
        thr = self.par["thr"]
        for l in range(r["x"].shape[0]):
            v = [-float(u) for u in r["x"][l]]
            m = Blackout(thr)
            for i in range(r["n"]):
                s = v[i] < thr and i + 1 < r["n"] and isnan(v[i + 1])
                e = v[i] < thr and i > 0 and isnan(v[i - 1])
                lone = m.prev is None or (isnan(v[i]) and self.lone(v, i))
                want = m.step(v[i])
                if not (self.cmp("gapstart", l, i, a["gapstart"][l, i], float(s)) and self.cmp("gapend", l, i, a["gapend"][l, i], float(e))
                        and self.cmp("mask", l, i, a["mask"][l, i], None if lone else float(want))):
                    return

    @staticmethod
    def lone(v, i):
        """Is the sample before the gap that i lies in a single one between two gaps?"""
        while i >= 0 and isnan(v[i]):
            i -= 1
        return i < 1 or isnan(v[i - 1])

    def j_reflevel(self, a, r, wet=None, F=None, names=("pref", "pcmin", "pcmax", "nR"), minp=None, skip=None):
        p = self.par
        lo, hi = -r["x"], stages.second(r, -1)
        wet = r["wet"] if wet is None else wet
        for l in range(lo.shape[0]):
            ref = Reference(p["ndry"], p["minp"] if minp is None else minp)
            for i in range(r["n"]):
                x, y, w = float(lo[l, i]), float(hi[l, i]), float(wet[l, i])
                q = ref.step(x, y, w)
                if not self.cmp("pref", l, i, a["pref"][l, i], q):
                    return
                tie = abs(x - q) < 1e-9 or abs(y - q) < 1e-9
                c = correct(x, y, w, q)
                if not (self.cmp("pcmin", l, i, a["pcmin"][l, i], None if tie else c[0]) and self.cmp("pcmax", l, i, a["pcmax"][l, i], None if tie else c[1])):
                    return
                f = 0.0 if F is None else float(F[l, i])
                if p["fthr"] is not None and abs(f - p["fthr"]) < 1e-9 or tie:
                    continue
                if not self.cmp("nR", l, i, a["nR"][l, i], retrieve(q, *c, f, p["f"][l], p["len"][l], p["waamax"], p["fthr"])):
                    return

    def j_nearby(self, a, r):
        p, n = self.par, r["n"]
        L = r["x"].shape[0]
        s = p["site"]
        ends = [((s[0][l], s[1][l]), (s[2][l], s[3][l])) for l in range(L)]
        near, close = [], False
        for l in range(L):
            d = [0.0 if j == l else max(distance(*u, *v) for u in ends[l] for v in ends[j]) for j in range(L)]
            close = close or any(abs(v - p["radius"]) < 0.02 for v in d)
            near.append([j for j in range(L) if d[j] < p["radius"]])
        if close:
            return
        m = Nearby(p, near)
        steps = [m.step([float(-v) for v in r["x"][:, i]]) for i in range(n)]
        for l in range(L):
            if len(near[l]) <= p["minl"]:
                for i in range(n):
                    if not (isnan(a["nwet"][l, i]) and isnan(a["F"][l, i])):
                        return self.bad("wrong-nwet", "link %d has %d links within reach and is classified at step %d" % (l, len(near[l]), i))
                continue
            w = [s_[0][l] for s_ in steps]
            strong = [None if w[i] is None or abs(steps[i][2][l] + 2) < 1e-9 else w[i] == 1 and steps[i][2][l] < -2 for i in range(n)]
            for i in range(n):
                if not self.cmp("F", l, i, a["F"][l, i], steps[i][1][l], tol=1e-7):
                    return
                if isnan(w[i]) if w[i] is not None else False:
                    want = NAN
                elif i < 1 or i >= n - 2:
                    continue
                else:
                    nb = [strong[i - 1], strong[i + 1], strong[i + 2]]
                    if w[i] is None or None in nb:
                        continue
                    want = 1.0 if any(nb) else w[i]
                if not self.cmp("nwet", l, i, a["nwet"][l, i], want):
                    return
        self.j_reflevel(a, r, a["nwet"], a["F"], minp=1)

    def j_mlp(self, a, r):
        """The same probability for a record that consists of one window only."""
        p = self.par
        rs = np.random.RandomState(r["n"])
        for l in range(r["x"].shape[0]):
            for i in range(40):
                if not isnan(a["mlp"][l, i]):
                    return self.bad("wrong-mlp", "link %d classified at step %d, before its first window is full" % (l, i))
            for i in rs.choice(np.arange(41, r["n"]), min(3, r["n"] - 41), replace=False):
                cut = {k: v[l:l + 1, i - 41:i + 1] for k, v in r.items() if isinstance(v, np.ndarray)}
                q = dict(p, len=p["len"][l:l + 1], f=p["f"][l:l + 1])
                one = stages.mlp(self.proc.modules, cut, q)["mlp"]
                if not self.cmp("mlp", l, int(i), a["mlp"][l, i], float(one[0, -1]), " in a record of that window alone", tol=1e-5):
                    return

    def j_stft(self, a, r):
        q = self.par["stft"]
        W, n = q["W"], r["n"]
        win = np.hanning(W) if q["hann"] else np.hamming(W)
        ex = np.exp(-2j * np.pi * np.outer(np.arange(W // 2 + 1), np.arange(W)) / W)
        fr = np.arange(W // 2 + 1) / (60.0 * W)
        s = (W - 1) // 2
        for l in range(r["x"].shape[0]):
            x = -r["x"][l]
            P = np.full((W // 2 + 1, n), np.nan)
            for i in range(n):
                seg = x[i - s:i - s + W] if i >= s else x[:0]
                if len(seg) == W and not np.isnan(seg).any():
                    P[:, i] = np.abs(ex @ (seg * win)) ** 2
            dry = P[:, q["dry"][0]:q["dry"][1]]
            ok = ~np.isnan(dry[0])
            if not ok.any() or (dry[:, ok].mean(1) < 1e-9 * (np.nanmax(P) + 1e-30)).any():
                continue                    # nothing to compare with, or an empty band
            N = P / dry[:, ok].mean(1)[:, None]
            d = N[fr <= q["fdiv"]].mean(0) - N[fr > q["fdiv"]].mean(0)
            for i in range(n):
                if not self.cmp("psd", l, i, a["psd"][l, i], float(d[i]), tol=1e-6 * (1 + abs(N[:, i]).max() if not isnan(d[i]) else 1)):
                    return
                if isnan(d[i]) or abs(d[i] - q["thr"]) < 1e-5 * (1 + abs(N[:, i]).max()):
                    continue
                if not self.cmp("swet", l, i, a["swet"][l, i], float(d[i] > q["thr"])):
                    return

    def minmax(self, m, r, p):
        A = r["x"] - p["lvl"]
        return {"Rmm": np.array([m[stages.KR].calc_R_from_A_min_max(A[l], p["len"][l], f_GHz=p["f"][l], pol="H", R_min=p["rmin"], k=p["k"]) for l in range(A.shape[0])])}

    def j_minmax(self, a, r):
        p = self.par
        for l in range(r["x"].shape[0]):
            u, b = ITU[p["f"][l]]
            u = u * (np.log(p["k"]) + 0.57721566) ** b
            for i in range(r["n"]):
                A = float(r["x"][l, i]) - p["lvl"]
                R = NAN if isnan(A) else (A / (u * p["len"][l])) ** (1 / b) if A >= 0 else 0.0
                if abs(R - p["rmin"]) < 1e-9:
                    continue
                if not self.cmp("Rmm", l, i, a["Rmm"][l, i], 0.0 if R < p["rmin"] else R):
                    return

    def nontrivial(self):
        return self.ncmp > 0 and sum(self.s.fired.values()) > 0
