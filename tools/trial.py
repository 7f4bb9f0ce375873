"""Tries further changes (tools/trials/*.py, no demonstration kept) against the checks.
usage: trial.py FILE [ID...]; a file defines TRIALS = [(id, property, file, [(old, new), ...]), ...]"""
import os
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt_trial")
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    t = runpy.run_path(sys.argv[1])["TRIALS"]
    ids = sys.argv[2:]
    if not os.path.exists(WT):
        print(sh("git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD").stderr.strip())
    missed = []
    for i, prop, f, edits in t:
        if ids and i not in ids:
            continue
        sh("git", "-C", WT, "checkout", "-q", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip())
        sh("git", "-C", WT, "reset", "-q", "--hard")
        for e in edits:
            ff, old, new = e if len(e) == 3 else (f,) + tuple(e)
            s = open(os.path.join(WT, ff)).read()
            if s.count(old) != 1:
                print("%s: %d places for %r" % (i, s.count(old), old))
                missed.append(i + " (does not apply)")
                break
            open(os.path.join(WT, ff), "w").write(s.replace(old, new))
        else:
            r = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=pycomlink/tests/test_pytorch_utils.py",
                   "--ignore=pycomlink/tests/test_tensorflow_utils.py", "pycomlink", cwd=WT, env=dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE="1"))
            last = r.stdout.strip().splitlines()[-1]
            for p in prop.split():
                r = sh("python3", V + "/run.py", "check", p, env=dict(os.environ, DST_REPO=WT), cwd=V)
                v = [l for l in r.stdout.splitlines() if l.startswith("violation of")]
                n = [l for l in r.stdout.splitlines() if " quick: " in l]
                print("%s %s exit %d, %s; tests %s; %s" % (i, p, r.returncode, n[0].split("(")[0] if n else "", last[:20], v[0][:200] if v else r.stdout[-300:] if not n else ""), flush=True)
                if r.returncode != 1:
                    missed.append(i + " " + p)
    print("missed:", missed)
    sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
    sh("git", "-C", "/repo", "worktree", "prune")


main()
