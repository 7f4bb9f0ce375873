"""Build /verif/seeded/<id>/ from tools/plants/<id>.py and try it out in a scratch worktree.

usage: plant.py make|test|check|all ID...    (worktree: /tmp/wt_plant, created and removed here)
A plant file defines PROPERTY, NEEDS, BREAKS, FILE (or EDITS with files), EDITS [(old, new)], DEMO."""
import json
import os
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt_plant")
PY = "/opt/venv/bin/python"


SERVER = '''
import http.server, os, shutil, sys, tempfile, threading
from pathlib import Path

FILES, HITS = {}, []


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        HITS.append(self.path)
        b = FILES.get(self.path)
        if b is None:
            return self.send_error(404)
        if callable(b):
            return b(self)
        self.send_response(200)
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def log_message(self, *a):
        pass


def broken(full, part):
    def f(h):
        h.send_response(200)
        h.send_header("Content-Length", str(len(full)))
        h.end_headers()
        h.wfile.write(full[:part])
    return f


srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
BASE = "http://127.0.0.1:%d" % srv.server_port
TMP = Path(tempfile.mkdtemp())
import atexit
atexit.register(shutil.rmtree, TMP, True)
os.environ["HOME"] = str(TMP)
os.chdir(TMP)
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def worktree():
    if not os.path.exists(WT):
        r = sh("git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD")
        assert r.returncode == 0, r.stderr
    sh("git", "-C", WT, "checkout", "-q", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip())
    sh("git", "-C", WT, "reset", "-q", "--hard")


def make(i):
    d = runpy.run_path("%s/tools/plants/%s.py" % (V, i), {"SERVER": SERVER})
    worktree()
    for e in d["EDITS"]:
        f, old, new = e if len(e) == 3 else (d["FILE"],) + tuple(e)
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = "%s/seeded/%s" % (V, i)
    os.makedirs(out, exist_ok=True)
    diff = sh("git", "-C", WT, "diff").stdout
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    return d


def demo(i, where):
    return sh("bash", "%s/seeded/%s/demo.sh" % (V, i), cwd=where, timeout=300)


def test(i):
    a, b = demo(i, "/repo"), demo(i, WT)
    ok = a.returncode == 0 and b.returncode != 0
    print("%s demo: clean %d, planted %d %s" % (i, a.returncode, b.returncode, "" if ok else "  <-- BAD"))
    if not ok:
        print(a.stdout[-800:], a.stderr[-1500:], "----", b.stdout[-800:], b.stderr[-1500:])
    else:
        print("   ", (b.stderr.strip() or b.stdout.strip()).splitlines()[-1][:200])
    env = dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE="1")
    r = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=pycomlink/tests/test_pytorch_utils.py",
           "--ignore=pycomlink/tests/test_tensorflow_utils.py", "pycomlink", cwd=WT, env=env)
    last = r.stdout.strip().splitlines()[-1]
    print("    tests:", last, "" if last.startswith("2 failed, 45 passed") else "  <-- BAD")
    return ok


def check(i, prop, seed="1"):
    r = sh("python3", V + "/run.py", "check", prop, "--seed", seed, env=dict(os.environ, DST_REPO=WT), cwd=V)
    v = [l for l in r.stdout.splitlines() if l.startswith("violation of")]
    print("    check %s: exit %d %s" % (prop, r.returncode, (v[0][:230] if v else r.stdout[-200:])))
    return r.returncode == 1


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(V + "/tools/plants"))
    missed = []
    for i in ids:
        d = make(i)
        if cmd in ("test", "all"):
            test(i)
        if cmd in ("check", "all"):
            if not check(i, d["PROPERTY"]):
                missed.append(i)
    print("missed:", missed)
    sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
    sh("git", "-C", "/repo", "worktree", "prune")
