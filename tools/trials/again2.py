import runpy, os
d = os.path.dirname(os.path.abspath(__file__))
P = {t[0]: t for t in runpy.run_path(d + "/more.py")["TRIALS"]}
TRIALS = [P[i] for i in ("nb_global", "cov_box", "cov_int")] + [("nb_dup", "C19") + P["nb_dup"][2:]]
