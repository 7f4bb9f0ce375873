"""How often do the calls of a world succeed?  usage: outcomes.py Cxx N"""
import collections, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
import warnings; warnings.simplefilter("ignore")
from dst import runner, procs
procs.install()
import json
def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    w = runner.load_world(pid); w.prepare()
    c = collections.Counter()
    for i in range(n):
        p = json.loads(json.dumps(runner.make_plan(w, runner.seed_of(1, i), "quick")))
        r = runner.run_isolated(w, p)
        if "harness" in r:
            print(r["harness"]); continue
        what = {}
        for e in r["log"]:
            if e[2] == "call": what[e[3]] = e[4]
            if e[2] == "return" and e[3] in what: c[(str(what[e[3]]), e[4], e[5] if e[4] == "exc" else "")] += 1
    for k in sorted(c): print(k, c[k])
main()
