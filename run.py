#!/usr/bin/env python3
"""check <id> [--tier quick|thorough] [--seed N] | replay <file> | determinism [ids] [-n N]"""
import os
import sys

ENV = {"NUMBA_DISABLE_JIT": "1", "MPLBACKEND": "Agg", "TF_CPP_MIN_LOG_LEVEL": "3",
       "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONUTF8": "1",
       "TF_ENABLE_ONEDNN_OPTS": "0", "PYTHONWARNINGS": "ignore"}
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("DST_CHILD") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.setdefault("PYTHONHASHSEED", "0")
        env["DST_CHILD"] = "1"
        env["TQDM_DISABLE"] = "1"
        env.pop("ALLOW_TF_AUTOINSTALL", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    import argparse
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from dst import procs, runner
    procs.install()
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "determinism", "plan"])
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-n", type=int, default=40)
    a = ap.parse_args()
    try:
        if a.cmd == "check":
            rc = runner.check(a.what[0], a.tier, a.seed)
        elif a.cmd == "replay":
            rc = runner.replay(a.what[0])
        elif a.cmd == "plan":
            import json
            w = runner.load_world(a.what[0])
            w.prepare()
            print(json.dumps(runner.make_plan(w, int(a.what[1]), a.tier), indent=1))
            rc = 0
        else:
            rc = runner.determinism(a.what, a.n, a.seed)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
