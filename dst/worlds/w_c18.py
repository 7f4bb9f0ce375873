"""C18: time aggregation."""
import numpy as np
import pandas as pd

from .base import pick_faults, outcome, op_fault
from .feedworld import FeedWorld, feed_faults
from .memworld import same

TMP = "pycomlink.util.temporal"
# clock changes in Europe and America within or near the record
T0S = [pd.Timestamp(t, tz="UTC") for t in ("2024-03-31 00:35", "2024-10-27 00:35", "2024-10-26 23:50", "2024-11-03 05:20", "2024-12-31 23:10", "2024-06-01 12:00")]
TZ = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata"]


def model(times, vals, labels, label, method):
    """times, labels: int64 instants.  -> {label: aggregate}, rows counted"""
    if len(times) == 0 or len(labels) == 0:
        return {}, 0
    t0, t1 = max(times.min(), labels.min()), min(times.max(), labels.max())
    lab = np.sort(labels[(labels >= t0) & (labels <= t1)])
    out, n = {}, 0
    for t, v in zip(times, vals):
        if t < t0 or t > t1:
            continue
        if label == "right":
            k = np.searchsorted(lab, t, side="left")
            if k == len(lab):
                continue
        else:
            k = np.searchsorted(lab, t, side="right") - 1
            if k < 0:
                continue
        out.setdefault(int(lab[k]), []).append(v)
        n += 1
    res = {}
    for k, vs in out.items():
        a = np.array(vs, float)
        g = a[~np.isnan(a)]
        res[k] = {"sum": g.sum() if len(g) else 0.0, "mean": g.mean() if len(g) else np.nan, "count": len(g), "size": len(a),
                  "max": g.max() if len(g) else np.nan, "min": g.min() if len(g) else np.nan}[method]
    return res, n


class World(FeedWorld):
    modules = [TMP]
    quick = (8000, 55)
    real = [TMP, "pandas"]
    assumptions = ["the record carries time zone information, as the function requires"]
    rule = ("plans: 1-3 links, 4-60 samples each with irregular or regular times, 0-8 transport faults (loss, duplication, delay, "
            "reordering, stalls, collector crashes), 1-6 polls that aggregate the record in order of arrival onto regular, irregular, "
            "shifted or unsorted bins, both labels, several methods and time zones, twice and with interrupts; non-trivial: more than "
            "one poll and a fault fired")

    def plan(self, rng, tier):
        L, T = rng.choice([1, 1, 2, 3]), rng.choice([4, 8, 15, 30, 60])
        if rng.random() < 0.05:
            L, T = 1, rng.choice([200, 700, 2000])
        ops = feed_faults(rng, L, T, rng.choice([0, 1, 2, 4, 8]))
        for _ in range(rng.randint(1, 6)):
            ops.append({"k": "poll", "at": round(rng.uniform(0, T + 8), 2), "label": rng.choice(["right", "left"]),
                        "method": rng.choice(["sum", "sum", "mean", "count", "size", "max", "min"]), "fn": rng.random() < 0.3,
                        "bins": rng.choice(["reg", "reg", "reg", "irr", "shift", "part", "uns", "beyond"]), "step": rng.choice([2, 5, 15] if T < 100 else [5, 15, 60, 720]),
                        "itz": rng.choice([None, None, "UTC", "Europe/Berlin"]), "naive": rng.choice(["utc", "UTC", "Europe/Berlin"]),
                        "dtz": rng.choice(TZ), "bad": rng.random() < 0.04, "series": rng.random() < 0.4,
                        "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 20)], p_none=0.8)})
        return {"feed": {"L": L, "T": T, "wait": rng.choice([0, 2]), "jitter": rng.choice([0, 0.3, 2.0]), "seed": rng.getrandbits(30),
                         "t0": rng.randrange(len(T0S)), "name": rng.choice(["time", "time", None, "t"]), "irr": rng.random() < 0.4, "nan": rng.choice([0, 0, 0.2]), "int": rng.random() < 0.2},
                "tasks": [{"ops": ops}], "sched": rng.getrandbits(32), "grain": "line"}

    def setup(self, plan):
        f = plan["feed"]
        self.f = f
        self.T0 = T0S[f["t0"]]
        r = np.random.RandomState((f["seed"] + 1) & 0x7FFFFFFF)
        L, T = f["L"], f["T"]
        self.t = np.arange(T)[None, :] * 60.0 + (r.uniform(0, 59, (L, T)).round() if f["irr"] else np.zeros((L, T)))
        self.v = r.randint(0, 50, (L, T)).astype(float) if not f["int"] else r.randint(0, 50, (L, T))
        if f["nan"] and not f["int"]:
            self.v[r.uniform(size=self.v.shape) < f["nan"]] = np.nan
        self.final_bins = {}

    def bins(self, op, T):
        st = op["step"]
        n = T // st + 2
        m = np.arange(n) * st * 1.0
        if op["bins"] == "irr":
            m = np.unique(np.cumsum(np.random.RandomState(st).choice([1, 2, 5, 7], n)))
        elif op["bins"] == "shift":
            m = m + 0.5
        elif op["bins"] == "part":
            m = m[1:max(2, n // 2)]
        elif op["bins"] == "uns":
            m = m[::-1]
        elif op["bins"] == "beyond":
            m = np.concatenate([m, m[-1] + st * np.arange(1, 4)]) - 2 * st
        return self.T0 + pd.to_timedelta(m, unit="min")

    def poll(self, me, op):
        if op.get("final"):
            op = {**op, "label": "right", "method": "sum", "fn": False, "bins": "reg", "step": 5, "itz": "UTC", "naive": "utc", "dtz": "UTC", "bad": False, "series": False}
        me.nofault += 1
        arr = self.col.arrived
        mod = self.proc.modules[TMP]
        li = np.array([a for a, _ in arr], int)
        ki = np.array([b for _, b in arr], int)
        ts = self.T0 + pd.to_timedelta(self.t[li, ki] if len(arr) else np.array([], float), unit="s")
        ts = pd.DatetimeIndex(ts, name=self.f["name"]).tz_convert(op["dtz"])
        vals = self.v[li, ki] if len(arr) else np.array([], float)
        df = pd.DataFrame({"v": vals, "w": vals * 2.0}, index=ts)
        if op["series"]:
            df = df["v"]
        ix = pd.DatetimeIndex(self.bins(op, self.f["T"]), name="bins")
        if (op["step"] + len(arr)) % 2 and len(ix) > 2 and op["bins"] != "irr":      # as pandas.date_range() makes it
            ix = pd.DatetimeIndex(ix, freq="infer")
        inst = ix.tz_convert("UTC").values.astype("datetime64[ns]").astype(np.int64)
        kw = {}
        if op["itz"]:
            ix = ix.tz_convert(op["itz"])
        else:
            ix = ix.tz_convert(op["naive"]).tz_localize(None)
            try:
                ix.tz_localize(op["naive"])
            except ValueError:                      # such local times do not say which instant is meant
                ix = ix[:0]
            kw["new_index_tz"] = op["naive"] if op["naive"] != "utc" or len(arr) % 2 else "utc"
            if op["naive"] == "utc" and len(arr) % 2:
                kw = {}
        meth = getattr(np, op["method"]) if op["fn"] and op["method"] in ("sum", "mean", "max", "min") else op["method"]
        label = "center" if op["bad"] else op["label"]
        if label != "right" or len(arr) % 3 == 0:
            kw["label"] = label
        b_df, b_ix = df.copy(), ix.copy()
        me.nofault -= 1
        for again in range(2):
            self.s.event("call", me.op["id"], op["label"], op["method"], op["bins"], len(arr))
            o = outcome(lambda: mod.aggregate_df_onto_DatetimeIndex(df, ix, meth, **kw))
            me.nofault += 1
            self.nchecks += 1
            fault = op_fault(self.s, me)
            self.s.event("return", o[0], o[1] if o[0] == "exc" else len(o[1]))
            if not same(df, b_df) or not same(ix, b_ix):
                self.bad("input-modified", "aggregation changed the record or the index passed in")
            if len(ix) and len(arr):
                self.judge(op, o, fault, inst, ts, vals, len(arr))
            if o[0] == "ok" and not again:
                try:
                    o[1].iloc[:] = 0
                except Exception:
                    pass
                if not same(df, b_df):
                    self.bad("result-aliases-input", "changing the result changed the record")
            me.nofault -= 1

    def judge(self, op, o, fault, inst, ts, vals, narr):
        if op["bad"]:
            if o[0] == "ok":
                self.bad("bad-label-accepted", "a label that is neither left nor right was accepted")
            return
        times = ts.tz_convert("UTC").values.astype("datetime64[ns]").astype(np.int64)
        exp, n = model(times, vals.astype(float), inst, op["label"], op["method"])
        if o[0] == "exc":
            if not fault:
                self.bad("failed", "aggregation of %d samples failed: %s %s" % (narr, o[1], o[2]))
            return
        res = o[1]
        if op["method"] == "size":
            col = res if isinstance(res, pd.Series) else res.iloc[:, 0]
        else:
            col = res["v"] if isinstance(res, pd.DataFrame) else res
        if len(res) and res.index.tz is None:
            return self.bad("no-timezone", "the result lost the time zone")
        got = dict(zip((res.index.tz_convert("UTC").values.astype("datetime64[ns]").astype(np.int64) if len(res) else []), np.asarray(col.values, float)))
        if len(got) != len(res):
            return self.bad("bin-twice", "a bin occurs twice in the result")
        tl = lambda k: str(pd.Timestamp(k))
        for k in sorted(set(exp) | set(got)):
            if k not in got:
                return self.bad("bin-missing", "bin %s is missing (%s labels, %s)" % (tl(k), op["label"], op["bins"]))
            if k not in exp:
                return self.bad("bin-extra", "bin %s should not be there" % tl(k))
            a, b = got[k], exp[k]
            if not (np.isnan(a) and np.isnan(b)) and not abs(a - b) <= 1e-9 * (1 + abs(b)):
                return self.bad("bin-wrong", "%s of bin %s (%s labels) is %r, expected %r" % (op["method"], tl(k), op["label"], float(a), float(b)))
