"""C21: validation metrics of a network whose gauges and links lose samples."""
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults

ST = "pycomlink.validation.stats"
FORMS = ["np1", "np1", "np2", "np2", "np2T", "np3", "series", "series", "da1", "strided", "ro"]


def rain(f):
    """Rain of gauges (first half of the rows) and links (second half), as sent."""
    r = np.random.RandomState((f["seed"] + 11) & 0x7FFFFFFF)
    n, T = f["L"] // 2, f["T"]
    ev = np.zeros((n, T), bool)
    for l in range(n):
        t = r.randint(0, 8)
        while t < T:
            d = r.randint(1, f["evt"] + 1)
            ev[l, t:t + d] = True
            t += d + r.randint(1, f["evt"] * 3 + 1)
    g = ev * r.gamma(1.2, 3, (n, T))
    c = ev * np.maximum(0, g * r.uniform(0.5, 1.6, (n, 1)) + r.normal(0, 0.4, (n, T)))
    flip = r.uniform(size=(n, T)) < f["flip"]
    c = np.where(flip, np.where(c > 0, 0, r.gamma(1.2, 1, (n, T))), c)
    k = f["kind"]
    if k == "dry":
        g[:] = 0
    elif k == "blind":
        c[:] = 0
    elif k == "exact":
        c = g.copy()
    elif k == "int":
        g, c = np.round(g), np.round(c)
    elif k == "neg":            # noise around zero, as radar products and unclipped retrievals have it
        g, c = g + r.normal(0, 0.05, g.shape), c + r.normal(0, 0.05, c.shape)
    elif k == "huge":
        g, c = g * 1e4, c * 1e4
    return g, c


def same(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def ratio(a, b):
    return a / b if b else float("nan")


class World(FeedWorld):
    modules = [ST]
    quick = (5000, 40)
    real = [ST, "numpy, pandas, xarray"]
    stub = ["gauges, links, their telemetry and the collector (simulated)", "clock", "process interrupts, allocation failures"]
    assumptions = ["values exactly at the wet threshold are not judged (documentation and code differ in which side they belong to)",
                   "a Matthews correlation that is 0/0 with wet predictions is not judged, nor the correlation coefficient of constant series"]
    rule = ("plans: 1-4 pairs of gauge and link, 4-60 (rarely 2000) steps, 0-10 transport faults, 1-5 polls that validate the record so far as "
            "vector, matrix, transposed matrix, cube, Series, DataArray, strided or read-only array, some interrupted; non-trivial: more "
            "than one poll and a fault fired")

    def plan(self, rng, tier):
        n = rng.choice([1, 2, 3, 4])
        T = rng.choice([2000]) if rng.random() < 0.01 else rng.choice([4, 8, 15, 30, 60])
        ops = feed_faults(rng, 2 * n, T, rng.choice([0, 1, 2, 5, 10]))
        form = rng.choice(FORMS)
        for _ in range(rng.randint(1, 5)):
            ops.append({"k": "poll", "at": round(rng.uniform(1, T + 6), 2), "form": rng.choice(FORMS) if rng.random() < 0.3 else form, "l": rng.randrange(n),
                        "thr": rng.choice([0.1, 0.1, 0.0, 0.5, 2.2]), "flags": rng.choice(["float", "float", "bool", "int", "float32", "rain"]), "from": rng.choice([0, 0, 0, 1, 5]),
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 60)], p_none=0.8)})
        f = {"L": 2 * n, "T": T, "wait": rng.choice([0.9, 2, 4]), "jitter": rng.choice([0, 0.2, 1.0]), "seed": rng.getrandbits(30), "evt": rng.choice([1, 3, 8]),
             "flip": rng.choice([0, 0.1, 0.3]), "kind": rng.choice(["rain"] * 6 + ["dry", "blind", "exact", "int", "neg", "huge"])}
        return {"feed": f, "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def setup(self, plan):
        self.n = plan["feed"]["L"] // 2
        self.g, self.c = rain(plan["feed"])
        self.npairs = 0

    def shape(self, v, op):
        form, l = op.get("form", "np2"), op.get("l", 0) % self.n
        k = v.shape[1]
        if form == "np1":
            return v[l].copy()
        if form == "np2":
            return v.copy()
        if form == "np2T":
            return v.T
        if form == "np3":
            return v.reshape(1, self.n, k).copy()
        if form == "series":
            return pd.Series(v[l].copy(), index=pd.date_range("2024-05-01", periods=k, freq="1min"))
        if form == "da1":
            return xr.DataArray(v[l].copy(), dims="time", coords={"time": pd.date_range("2024-05-01", periods=k, freq="1min")})
        if form == "strided":
            return np.repeat(v[l], 2)[::2]
        w = v.copy()
        w.setflags(write=False)
        return w

    def poll(self, me, op):
        me.nofault += 1
        h = self.have()[:, op.get("from", 0):]
        a = op.get("from", 0)
        k = h.shape[1]
        if not k:
            me.nofault -= 1
            return
        ref = np.where(h[:self.n], self.g[:, a:a + k], np.nan)
        pre = np.where(h[self.n:], self.c[:, a:a + k], np.nan)
        thr = op.get("thr", 0.1)
        form = op.get("form", "np2")
        wr, wp = np.where(np.isnan(ref), np.nan, ref > thr), np.where(np.isnan(pre), np.nan, pre > thr)
        fl = op.get("flags", "float")
        if fl == "bool" and h.all():
            wr, wp = wr.astype(bool), wp.astype(bool)
        elif fl == "int" and h.all():
            wr, wp = wr.astype(int), wp.astype(int)
        elif fl == "float32":
            wr, wp = wr.astype(np.float32), wp.astype(np.float32)
        elif fl == "rain":       # anything above zero is wet
            wr, wp = ref, pre
        me.nofault -= 1
        self.call(me, "wet/dry", "calc_wet_dry_performance_metrics", self.shape(wr, op), self.shape(wp, op), (), self.judge_wet, form)
        self.call(me, "rain", "calc_rain_error_performance_metrics", self.shape(ref, op), self.shape(pre, op), (thr,), self.judge_rain, form)

    def call(self, me, what, name, ref, pre, more, judge, form):
        fn = getattr(self.proc.modules[ST], name)
        keep = np.array(ref, float), np.array(pre, float)
        if (~np.isnan(keep[0] + keep[1])).sum() == 0 and what == "rain":
            return                                       # nothing to compare
        self.s.event("call", me.op["id"], what, form, keep[0].shape)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = outcome(lambda: fn(ref, pre, *more))
            fault = op_fault(self.s, me)
            if fault:
                me.faults = []
                o = outcome(lambda: fn(ref, pre, *more))
        me.nofault += 1
        self.nchecks += 1
        self.s.event("return", me.op["id"], o[0])
        for i, v in enumerate((ref, pre)):
            if not np.array_equal(np.asarray(v, float), keep[i], equal_nan=True):
                self.bad("input-changed", "%s metrics changed their %s" % (what, ["reference", "prediction"][i]))
        if o[0] == "ok":
            judge(o[1], *[x.ravel() for x in keep], *more, "%s metrics (%s, %d values)" % (what, form, keep[0].size))
        else:
            self.bad("fails", "%s metrics of %s %s failed: %s %s" % (what, form, keep[0].shape, o[1], o[2]))
        me.nofault -= 1

    def fields(self, m, want, what):
        for k, v in want.items():
            got = getattr(m, k)
            try:
                ok = np.ndim(got) == 0 and same(got, v, 1e-4 if k == "matthews_correlation" and isinstance(got, np.float32) else 1e-9)
            except (TypeError, ValueError):
                ok = False
            if not ok:
                self.bad("wrong-" + ("count" if k.startswith("N_") else "value"), "%s: %s is %s, by definition %r" % (what, k, str(got)[:60], v))

    def pairs(self, ref, pre):
        ok = [(a, b) for a, b in zip(ref.tolist(), pre.tolist()) if a == a and b == b]
        self.npairs += len(ok)
        cnt = {"N_all_pairs": len(ref), "N_nan_pairs": len(ref) - len(ok), "N_nan_reference_only": sum(a != a for a in ref.tolist()),
               "N_nan_predicted_only": sum(b != b for b in pre.tolist())}
        return ok, cnt

    def judge_wet(self, m, ref, pre, what):
        ok, want = self.pairs(ref, pre)
        tp = sum(a > 0 and b > 0 for a, b in ok)
        tn = sum(not a > 0 and not b > 0 for a, b in ok)
        fp = sum(not a > 0 and b > 0 for a, b in ok)
        fn = sum(a > 0 and not b > 0 for a, b in ok)
        want.update(N_true_wet=tp, N_true_dry=tn, N_false_wet=fp, N_missed_wet=fn, N_wet_reference=tp + fn, N_dry_reference=tn + fp,
                    true_wet_rate=ratio(tp, tp + fn), missed_wet_rate=ratio(fn, tp + fn), true_dry_rate=ratio(tn, tn + fp), false_wet_rate=ratio(fp, tn + fp))
        d = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
        if d:
            want["matthews_correlation"] = (tp * tn - fp * fn) / d ** 0.5
        elif ok and tp + fp == 0:
            want["matthews_correlation"] = 0.0
        self.fields(m, want, what)

    def judge_rain(self, m, ref, pre, thr, what):
        ok, want = self.pairs(ref, pre)
        a, b = np.array(ok).T
        n = len(ok)
        want.update(rainfall_threshold_wet=thr, R_sum_reference=a.sum(), R_sum_predicted=b.sum(), R_mean_reference=a.sum() / n, R_mean_predicted=b.sum() / n,
                    root_mean_square_error=(((a - b) ** 2).sum() / n) ** 0.5, mean_absolute_error=abs(a - b).sum() / n)
        if abs(a.sum() / n) > 1e-6 * (abs(a).max() + 1e-9):
            want["coefficient_of_variation"] = ((((b - a) - (b - a).mean()) ** 2).sum() / n) ** 0.5 / a.mean()
        da, db = a - a.mean(), b - b.mean()
        if (da ** 2).sum() > 1e-9 * (a ** 2).sum() and (db ** 2).sum() > 1e-9 * (b ** 2).sum():
            want["pearson_correlation"] = (da * db).sum() / ((da ** 2).sum() * (db ** 2).sum()) ** 0.5
        if not ((a == thr).any() or (b == thr).any()) or thr == 0:
            # with threshold 0 dry means no rain at all
            rw, pw = a > thr, b > thr
            want.update(false_wet_rate=ratio((~rw & pw).sum(), (~rw).sum()), missed_wet_rate=ratio((rw & ~pw).sum(), rw.sum()),
                        false_wet_precipitation_rate=ratio(b[~rw & pw].sum(), (~rw & pw).sum()),
                        missed_wet_precipitation_rate=ratio(a[rw & ~pw].sum(), (rw & ~pw).sum()))
        self.fields(m, want, what)

    def nontrivial(self):
        return super().nontrivial() and self.npairs > 0
