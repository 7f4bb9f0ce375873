import runpy, os
d = os.path.dirname(os.path.abspath(__file__))
P = {t[0]: t for t in runpy.run_path(d + "/stages.py")["TRIALS"]}
TRIALS = [P[i] for i in ("R_inplace", "minmax_k", "ab_round", "nw_distinplace")] + [(i, "C22", P[i][2], P[i][3]) for i in ("nr_len", "nr_wetnan", "nw_bfill", "nw_nonan", "bl_first", "bo_roll")]
