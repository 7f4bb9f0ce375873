"""Runs simulations: zygote, forked workers, one forked child per run, minimisation, replay,
evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
_time = time.time          # the simulator patches time.* only inside run children
NWORK = int(os.environ.get("DST_WORKERS", "8"))

WORLDS = {}


def load_world(pid):
    mod = importlib.import_module("dst.worlds.w_" + pid.lower())
    w = mod.World()
    w.id = pid
    return w


def scratch_base():
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    return "/tmp"


_counter = [0]


def run_isolated(world, plan, timeout=90.0):
    """One simulated run in a forked child.  Returns the result dict."""
    _counter[0] += 1
    root = os.path.join(scratch_base(), "dst-%d-%d" % (os.getpid(), _counter[0]))
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            write, getenv = os.write, os.environ.get
            if not getenv("DST_DEBUG"):
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                sys.stdout = open(os.devnull, "w", encoding="utf-8")
                sys.stderr = open(os.devnull, "w", encoding="utf-8")
            gc.disable()
            try:
                res = world.execute(copy.deepcopy(plan), root)
            except BaseException:
                res = {"harness": traceback.format_exc()}
            data = pickle.dumps(res)
            data = struct.pack("<Q", len(data)) + data
            while data:
                n = write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = _time() + timeout
    timed_out = False
    while True:
        left = deadline - _time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {"harness": "run timed out after %.0f s (wall)" % timeout}
    if len(buf) < 8:
        res = {"harness": "run child died, status %r" % (status,)}
        if os.WIFSIGNALED(status) and getattr(world, "library_crashes", 0):
            res["native"] = True
        return res
    return pickle.loads(buf[8:])


def seed_of(base, i):
    h = hashlib.sha256(b"%d/%d" % (base, i)).digest()
    return int.from_bytes(h[:6], "little")


def make_plan(world, seed, tier):
    rng = random.Random(seed)
    plan = world.plan(rng, tier)
    plan["seed"] = seed
    return plan


def _worker(world, base, tier, idx, n, deadline, wfd, stop_path):
    gc.collect()
    gc.freeze()
    i = idx
    while i < n and _time() < deadline and not os.path.exists(stop_path):
        seed = seed_of(base, i)
        t = _time()
        try:
            plan = make_plan(world, seed, tier)
            res = run_isolated(world, plan)
        except BaseException:
            plan, res = None, {"harness": "plan: " + traceback.format_exc()}
        res["i"], res["seed"], res["wall"] = i, seed, _time() - t
        keep = bool(res.get("viol")) or "harness" in res or i < 3
        res["plan"] = plan if keep else None
        if not res.get("viol"):
            res.pop("log", None)
        data = pickle.dumps(res)
        data = struct.pack("<Q", len(data)) + data
        while data:
            k = os.write(wfd, data)
            data = data[k:]
        i += NWORK
    os._exit(0)


def explore(world, base, tier, n, wall):
    """Yields results of n seeded runs (stops early on violation or at the wall cap)."""
    t0 = _time()
    deadline = t0 + wall
    stop_path = os.path.join(scratch_base(), "dst-stop-%d" % os.getpid())
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    pipes, pids = {}, []
    for k in range(NWORK):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q in pipes:
                    os.close(q)
                _worker(world, base, tier, k, n, deadline, w, stop_path)
            finally:
                os._exit(1)
        os.close(w)
        pipes[r] = b""
        pids.append(pid)
    results = []
    try:
        while pipes:
            rd, _, _ = select.select(list(pipes), [], [], 5.0)
            for r in rd:
                d = os.read(r, 1 << 20)
                if not d:
                    os.close(r)
                    del pipes[r]
                    continue
                pipes[r] += d
                while len(pipes[r]) >= 8:
                    ln = struct.unpack("<Q", pipes[r][:8])[0]
                    if len(pipes[r]) < 8 + ln:
                        break
                    res = pickle.loads(pipes[r][8:8 + ln])
                    pipes[r] = pipes[r][8 + ln:]
                    results.append(res)
                    if (res.get("viol") or "harness" in res) and not res.get("native") and not os.path.exists(stop_path):
                        open(stop_path, "w").close()
    finally:
        for p in pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        if os.path.exists(stop_path):
            os.unlink(stop_path)
    return results, _time() - t0


# ------------------------------------------------------------- minimisation
def _has(res, cls):
    return any(v["class"] == cls for v in res.get("viol", ()))


def _ddmin(items, test):
    """Smallest sublist (by removal of chunks) for which test is true."""
    items = list(items)
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        removed = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                removed = True
            else:
                i += size
        if not removed:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(world, plan, cls, budget):
    end = _time() + budget
    count = [0]

    def fails(p):
        if _time() > end:
            return False
        count[0] += 1
        return _has(run_isolated(world, p), cls)

    best = plan
    for _round in range(3):
        before = json.dumps(best, sort_keys=True)
        # operations
        tasks = best.get("tasks")
        if tasks is not None:
            flat = [(ti, oi) for ti, t in enumerate(tasks) for oi in range(len(t["ops"]))]

            def build(sel, b=best):
                q = copy.deepcopy(b)
                s = set(sel)
                for ti, t in enumerate(q["tasks"]):
                    t["ops"] = [o for oi, o in enumerate(b["tasks"][ti]["ops"]) if (ti, oi) in s]
                return q
            sel = _ddmin(flat, lambda s: fails(build(s)))
            best = build(sel)
        # preemptions
        if best.get("switches"):
            sw = _ddmin(best["switches"], lambda s: fails({**best, "switches": s}))
            best = {**best, "switches": sw}
        # faults
        if tasks is not None:
            ff = [(ti, oi, k, fi) for ti, t in enumerate(best["tasks"])
                  for oi, o in enumerate(t["ops"])
                  for k in ("faults", "net") for fi in range(len(o.get(k) or []))]

            def buildf(sel, b=best):
                q = copy.deepcopy(b)
                s = set(sel)
                for ti, t in enumerate(q["tasks"]):
                    for oi, o in enumerate(t["ops"]):
                        for k in ("faults", "net"):
                            if o.get(k):
                                o[k] = [x for fi, x in enumerate(o[k]) if (ti, oi, k, fi) in s]
                return q
            if ff:
                best = buildf(_ddmin(ff, lambda s: fails(buildf(s))))
        # world specific simplifications
        progress = True
        while progress and _time() < end:
            progress = False
            for cand in world.simplify(copy.deepcopy(best)):
                if fails(cand):
                    best = cand
                    progress = True
                    break
        if json.dumps(best, sort_keys=True) == before or _time() > end:
            break
    return best, count[0]


# ------------------------------------------------------------------- check
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                cls = line.split("class=", 1)[1].split(" ", 1)
                out.append((cls[0], cls[1] if len(cls) > 1 else ""))
    return out


def check(pid, tier, seed):
    t_start = _time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    world = load_world(pid)
    world.prepare()
    t_ready = _time()
    n, wall = world.budget(tier)
    if os.environ.get("DST_RUNS"):
        n = int(os.environ["DST_RUNS"])
    if os.environ.get("DST_WALL"):
        wall = float(os.environ["DST_WALL"])
    results, took = explore(world, seed, tier, n, wall)
    native = [r for r in results if r.get("native")]
    if len(native) <= 1 + getattr(world, "library_crashes", 0) * len(results) and len(native) < len(results):
        results = [r for r in results if not r.get("native")]
        for r in native:
            print("not judged: the library under the simulated disk crashed in the run with seed %s" % r["seed"], file=sys.stderr)
    harness = [r for r in results if "harness" in r]
    known = known_findings(pid)
    kn = {c for c, _ in known}
    bad = []
    seen_known = set()
    for r in sorted(results, key=lambda r: r["i"]):
        for v in r.get("viol", ()):
            if v["class"] in kn:
                seen_known.add(v["class"])
            else:
                bad.append((r, v))
    for c, what in known:
        if c in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    status = 0
    report = None
    if bad:
        status, report = _report(world, pid, tier, bad)
    elif harness:
        status = 2
        for h in harness[:2]:
            print("HARNESS ERROR seed=%s\n%s" % (h["seed"], h["harness"]), file=sys.stderr)
    elif not results:
        status = 2
        print("HARNESS ERROR: no run finished", file=sys.stderr)
    ev = evidence(world, pid, tier, seed, results, took, t_ready - t_start, bad)
    ev["wall_s"] = round(_time() - t_start, 2)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    c = ev["coverage"]
    print("%s %s: %d runs in %.1f s (%d runs/h), %d distinct non-trivial, simulated %.1f h, "
          "%d yield points, %d context switches, faults fired %s"
          % (pid, tier, c["evaluations"], took, c["runs_per_hour"], c["distinct_nontrivial"],
             c["simulated_seconds"] / 3600.0, c["yield_points"], c["context_switches"],
             json.dumps(c["faults_fired"], sort_keys=True)))
    if status == 1:
        print(report)
    return status


def _report(world, pid, tier, bad):
    tried = 0
    for r, v in bad[:4]:
        tried += 1
        plan = r["plan"]
        if r.get("switches") is not None:
            plan = {**plan, "switches": r["switches"]}
        first = run_isolated(world, plan)
        if not _has(first, v["class"]):
            # the explicit schedule does not reproduce it: fall back to the seeded one
            plan = r["plan"]
            first = run_isolated(world, plan)
            if not _has(first, v["class"]):
                continue
        small, cnt = minimise(world, plan, v["class"], 60.0 if tier == "quick" else 180.0)
        for cand in (small, plan):
            path = write_replay(world, pid, tier, r["seed"], cand, v["class"])
            if path is None:
                continue
            rc = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay", path],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                timeout=300)
            if rc.returncode == 1:
                data = json.load(open(path))
                print("violation of %s found with seed %d, minimised with %d runs: %s"
                      % (pid, r["seed"], cnt, data["violation"]["msg"]))
                return 1, "VIOLATION property=%s replay=%s" % (pid, path)
    r, v = bad[0]
    print("HARNESS ERROR: violation %s (seed %d) did not replay: %s"
          % (v["class"], r["seed"], v["msg"]), file=sys.stderr)
    return 2, None


def write_replay(world, pid, tier, seed, plan, cls):
    res = run_isolated(world, plan)
    if not _has(res, cls):
        return None
    v = [x for x in res["viol"] if x["class"] == cls][0]
    path = os.path.join(OUT, "%s-%d.json" % (pid, seed))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "plan": plan, "violation": v,
                   "digest": res.get("digest"), "log": res.get("log", [])}, f, indent=1,
                  default=str)
    return path


def replay(path):
    data = json.load(open(path))
    pid = data["property"]
    world = load_world(pid)
    world.prepare()
    gc.collect()
    gc.freeze()
    res = run_isolated(world, data["plan"])
    if "harness" in res:
        print("HARNESS ERROR\n" + res["harness"], file=sys.stderr)
        return 2
    for e in res.get("log", []):
        print("  ", e)
    for v in res.get("viol", ()):
        print("violation:", v["class"], "-", v["msg"])
    if _has(res, data["violation"]["class"]):
        same = res.get("digest") == data.get("digest")
        print("event log digest %s" % ("identical" if same else "DIFFERS"))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
        return 1
    print("no violation")
    return 0


def evidence(world, pid, tier, seed, results, took, prep, bad):
    ok = [r for r in results if "harness" not in r]
    fired, probes = {}, {}
    for r in ok:
        for k, v in r.get("fired", {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
    nontriv = {r["digest"] for r in ok if r.get("nontrivial")}
    ilv = {r["ilv"] for r in ok if r.get("ilv") is not None}
    samples = [{"seed": r["seed"], "plan": r["plan"], "events": r.get("nlog")}
               for r in ok if r.get("plan") is not None][:2]
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len(nontriv),
        "rule": world.rule,
        "samples": samples,
        "runs_per_hour": int(len(ok) / max(took, 1e-6) * 3600),
        "seeds": "sha256(VERIF_SEED/i) for i < %d" % (max([r["i"] for r in results], default=-1) + 1),
        "simulated_seconds": round(sum(r.get("simtime", 0.0) for r in ok), 3),
        "faults_fired": fired,
        "probes": probes,
        "yield_points": sum(r.get("yields", 0) for r in ok),
        "steps": sum(r.get("steps", 0) for r in ok),
        "context_switches": sum(r.get("ctx", 0) for r in ok),
        "distinct_interleavings": len(ilv),
        "interleaving_measure": "distinct sequences of (yield point, task) switches, with the "
                                "fault sequence that fired",
        "operations": sum(r.get("nops", 0) for r in ok),
        "checks_evaluated": sum(r.get("nchecks", 0) for r in ok),
        "real_components": world.real,
        "stub_components": world.stub,
        "prepare_s": round(prep, 2),
        "violating_runs": len({id(r) for r, _ in bad}),
        "run_wall_s_max": round(max([r["wall"] for r in ok], default=0.0), 2),
    }
    return {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": cov, "assumptions": world.assumptions, "wall_s": 0.0,
            "violations": len(bad)}


def determinism(pids, n, base):
    """Same seeds twice (reverse order the second time): event digests must agree."""
    bad = 0
    for pid in pids:
        world = load_world(pid)
        world.prepare()
        gc.collect()
        gc.freeze()
        digs = {}
        for rnd in range(2):
            order = list(range(n)) if rnd == 0 else list(reversed(range(n)))
            for i in order:
                plan = make_plan(world, seed_of(base, i), "quick")
                pj = json.dumps(plan, sort_keys=True, default=str)
                plan = json.loads(pj)
                res = run_isolated(world, plan)
                if "harness" in res:
                    print(pid, i, res["harness"])
                    bad += 1
                    continue
                key = (hashlib.md5(pj.encode()).hexdigest(), res["digest"], res["yields"],
                       len(res.get("viol", ())))
                if rnd and digs.get(i) != key:
                    print("NONDETERMINISM", pid, i, digs.get(i), key)
                    bad += 1
                digs[i] = key
        tot = hashlib.md5(repr(sorted(digs.items())).encode()).hexdigest()
        print("determinism %s n=%d digest %s" % (pid, n, tot))
    return 1 if bad else 0
