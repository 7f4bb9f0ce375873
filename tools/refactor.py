"""Behaviour-preserving edits: the checks must stay quiet.

usage: refactor.py [ID...]     (tools/refactors/ID.py: CHECKS, EDITS {file: [(old, new)] or [(None, new file text)]})"""
import os
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt_refactor"
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/refactors") if f.endswith(".py"))
    bad = []
    for i in ids:
        m = runpy.run_path("%s/tools/refactors/%s.py" % (V, i))
        sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
        r = sh("git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD")
        assert r.returncode == 0, r.stderr
        try:
            for f, edits in m["EDITS"].items():
                p = "%s/%s" % (WT, f)
                for old, new in edits:
                    if old is None:
                        s = new
                    else:
                        s = open(p).read()
                        assert s.count(old) == 1, (i, f, s.count(old), old)
                        s = s.replace(old, new)
                    open(p, "w").write(s)
            t = sh(PY, "-m", "pytest", "-q", "-x", "--deselect", "nothing", "pycomlink/tests", cwd=WT) if 0 else sh(PY, "-m", "pytest", "-q", "pycomlink/tests", cwd=WT)
            line = t.stdout.strip().splitlines()[-1]
            print(i, "tests:", line, flush=True)
            if "45 passed" not in line:
                bad.append((i, "tests"))
                print(t.stdout[-1500:])
            for c in m["CHECKS"]:
                r = sh(sys.executable, V + "/run.py", "check", c, env={**os.environ, "DST_REPO": WT})
                if r.returncode:
                    bad.append((i, c))
                print("   ", c, r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1][:200] if not r.returncode else (r.stdout + r.stderr)[-1500:], flush=True)
        finally:
            sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
            sh("git", "-C", "/repo", "worktree", "prune")
    print("alarms:", bad)


main()
