"""pycomlink processing stages as a real-time consumer runs them.  Each returns {output name: links x steps array}.

A record r holds: x (total loss, NaN = not delivered), wet (0/1/NaN), n, feed parameters."""
import numpy as np
import pandas as pd
import xarray as xr

P = "pycomlink.processing."
BL, WA, KR, BO = P + "baseline", P + "wet_antenna", P + "k_R_relation", P + "blackout_gap_detection"
WD, RR, MLP = P + "wet_dry.nearby_wetdry", P + "nearby_rain_retrival", P + "wet_dry.mlp"
STFT = P + "wet_dry.stft"
RUN = P + "pytorch_utils.run_inference"


def da(v, p, name="time"):
    L, n = v.shape
    co = {"cml_id": ["l%d" % i for i in range(L)], "time": pd.date_range("2024-05-01", periods=n, freq=p.get("freq", "1min")),
          "length": ("cml_id", np.asarray(p["len"], float)), "frequency": ("cml_id", np.asarray(p["f"], float))}
    return xr.DataArray(v, dims=("cml_id", "time"), coords=co)


def second(r, sign):
    """The maximum level or second channel, which may have lost other samples than x."""
    return sign * r.get("x2", r["x"]) + r["spread"]


def chain(m, r, p):
    """baseline -> wet antenna -> rain rate"""
    n_avg = p["navg"]
    form = p["form"]
    x, wet = r["x"], r["wet"]
    if form == "da":
        X, W = da(x, p), da(wet, p)
        b = m[BL].baseline_constant(X, W, n_average_last_dry=n_avg)
        A = X - b
        pos = A.where(~(A < 0), 0.0)
        if p["waa"] == "schleiss":
            w = m[WA].waa_schleiss_2013(X, b, W, p["waamax"], 1.0, p["tau"])
        elif p["waa"] == "leijnse":
            w = m[WA].waa_leijnse_2008_from_A_obs(pos, f_Hz=X.frequency * 1e9, pol="H", L_km=X.length)
        else:
            w = m[WA].waa_pastorek_2021_from_A_obs(pos, f_Hz=X.frequency * 1e9, pol="V", L_km=X.length)
        R = m[KR].calc_R_from_A(A - w, L_km=X.length, f_GHz=X.frequency, pol="H", R_min=p["rmin"])
        return {"baseline": b.transpose("cml_id", "time").values, "waa": w.transpose("cml_id", "time").values, "R": R.transpose("cml_id", "time").values}
    B, Wa, Rr = [], [], []
    for l in range(x.shape[0]):
        b = m[BL].baseline_constant(x[l], wet[l], n_avg)
        A = x[l] - b
        pos = np.where(A < 0, 0.0, A)
        if p["waa"] == "schleiss":
            w = m[WA].waa_schleiss_2013(x[l], b, wet[l], p["waamax"], 1.0, p["tau"])
        elif p["waa"] == "leijnse":
            w = m[WA].waa_leijnse_2008_from_A_obs(pos, f_Hz=p["f"][l] * 1e9, pol="H", L_km=p["len"][l])
        else:
            w = m[WA].waa_pastorek_2021_from_A_obs(pos, f_Hz=p["f"][l] * 1e9, pol="V", L_km=p["len"][l])
        R = m[KR].calc_R_from_A(A - w, L_km=p["len"][l], f_GHz=p["f"][l], pol="H", R_min=p["rmin"])
        B.append(b)
        Wa.append(w)
        Rr.append(R)
    return {"baseline": np.array(B), "waa": np.array(Wa), "R": np.array(Rr)}


def linear(m, r, p):
    return {"linear": np.array([m[BL].baseline_linear(r["x"][l], r["wet"][l], ignore_nan=p["ign"]) for l in range(r["x"].shape[0])])}


def blackout(m, r, p):
    out, gs, ge = [], [], []
    for l in range(r["x"].shape[0]):
        rsl = -r["x"][l]
        a, b = m[BO].get_blackout_start_and_end(rsl, p["thr"])
        out.append(m[BO].created_blackout_gap_mask_from_start_end_markers(rsl, a, b).astype(float))
        gs.append(np.array(a, float))
        ge.append(np.array(b, float))
    return {"mask": np.array(out), "gapstart": np.array(gs), "gapend": np.array(ge)}


def nearby(m, r, p):
    freq = "%dmin" % p.get("intv", 15)
    pmin = da(-r["x"], {**p, "freq": freq})
    pmax = da(second(r, -1), {**p, "freq": freq})
    d = m[WD].calc_distance_between_cml_endpoints(list(pmin.cml_id.values), *p["site"])
    wet, F = m[WD].nearby_wetdry(pmin, d, radius=p["radius"], min_links=p["minl"], interval=p.get("intv", 15), timeperiod=p["tper"], min_hours=p["minh"])
    pref = m[RR].nearby_determine_reference_level(pmin, pmax, wet, n_average_dry=p["ndry"], min_periods=1)
    lo, hi = m[RR].nearby_correct_received_signals(pmin, pmax, wet, pref)
    R = m[RR].nearby_rainfall_retrival(pref, lo, hi, F, length=pmin.length, f_GHz=pmin.frequency, pol="H", waa_max=p["waamax"], F_value_threshold=p["fthr"])
    t = lambda v: v.transpose("cml_id", "time").values
    return {"nwet": t(wet), "F": t(F), "pref": t(pref), "pcmin": t(lo), "pcmax": t(hi), "nR": t(R)}


def reflevel(m, r, p):
    """Reference level, correction and rain rate with a given wet/dry classification."""
    pmin = da(-r["x"], p)
    pmax = da(second(r, -1), p)
    wet = da(r["wet"], p)
    pref = m[RR].nearby_determine_reference_level(pmin, pmax, wet, n_average_dry=p["ndry"], min_periods=p["minp"])
    lo, hi = m[RR].nearby_correct_received_signals(pmin, pmax, wet, pref)
    F = da(np.zeros_like(r["x"]), p)
    R = m[RR].nearby_rainfall_retrival(pref, lo, hi, F, length=pmin.length, f_GHz=pmin.frequency, pol="H", waa_max=p["waamax"], F_value_threshold=p["fthr"])
    t = lambda v: v.transpose("cml_id", "time").values
    return {"pref": t(pref), "pcmin": t(lo), "pcmax": t(hi), "nR": t(R)}


def mlp(m, r, p):
    out = []
    X = da(r["x"], p)
    for l in range(r["x"].shape[0]):
        ch2 = da(second(r, 1), p).isel(cml_id=l)
        out.append(m[MLP].mlp_wet_dry(X.isel(cml_id=l), ch2, model_sel=p["model"])[:, 1])
    return {"mlp": np.array(out)}


def stft(m, r, p):
    """Spectral classifier with a given dry period; the state is unknown (NaN) where there is no spectrum."""
    q = p["stft"]
    wet, psd = [], []
    for l in range(r["x"].shape[0]):
        w, info = m[STFT].stft_classification(-r["x"][l], q["W"], q["thr"], q["fdiv"], t_dry_start=q["dry"][0], t_dry_stop=q["dry"][1],
                                              window=np.hanning(q["W"]) if q["hann"] else None)
        d = np.asarray(info["P_sum_diff"], float)
        psd.append(d)
        wet.append(np.where(np.isnan(d) | (np.abs(d - q["thr"]) < 1e-6 * (1 + np.abs(d))), np.nan, np.asarray(w, float)))
    return {"psd": np.array(psd), "swet": np.array(wet)}


def cnn(m, r, p):
    X = da(r["x"], p).expand_dims(channel_id=["c1"], axis=2)
    ds = m[RUN].cnn_wd(p["path"], X, **({} if p["ref"] == 60 else {"reflength": p["ref"]}))
    return {"cnn": ds["predictions"].transpose("cml_id", "time").values}


def torch(m, r, p):
    X = da(r["x"], p).expand_dims(channel_id=["c1"], axis=2)
    res = m[RUN].run_inference(p["net"], X, batch_size=p["bs"], reflength=p["ref"])
    ds = m[RUN].redistribute_results(res, X.to_dataset(name="TL"))
    return {"cnn": ds["predictions"].transpose("cml_id", "time").values}
