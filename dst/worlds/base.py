import gc
import os
import sys
import zlib

from .. import kernel, procs, seams
from ..kernel import Sim, SimKill, SimAbort, Proc


class BaseWorld:
    id = None
    rule = ""
    real = []
    stub = []
    assumptions = []
    modules = []
    quick = (1500, 40)
    thorough = (60000, 780)

    def budget(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def prepare(self):
        import pycomlink  # noqa
        for m in self.modules:
            __import__(m)
        procs.new_instance(self.modules)

    def simplify(self, plan):
        return ()

    # ---------------------------------------------------------------- helpers
    def sched(self, rng, ntasks, line=(0.0, 0.002, 0.01, 0.05, 0.2), seam=(0.05, 0.2, 0.5),
              instr=0.1):
        d = {"sched": rng.getrandbits(32)}
        if ntasks > 1:
            d["p_line"] = rng.choice(line)
            d["p_seam"] = rng.choice(seam)
        d["grain"] = "instr" if ntasks > 1 and rng.random() < instr else "line"
        return d

    def sim(self, plan, max_steps=400000):
        s = Sim(plan.get("sched", 0), plan.get("switches"), plan.get("p_line", 0.0),
                plan.get("p_seam", 0.0), plan.get("grain", "line"), max_steps)
        kernel.install_monitoring(s.grain)
        s.on_switch_proc = lambda p: procs.swap_in(p.modules)
        return s

    def result(self, sim, viol, **kw):
        fl = [e[2:] for e in sim.log if e[2] == "fault"]
        r = {"viol": viol, "digest": sim.digest, "steps": sim.steps, "yields": sim.yields,
             "switches": sim.switches, "fired": dict(sim.fired), "probes": dict(sim.probes),
             "simtime": sim.now - sim.t0, "ctx": sim.context_switches,
             "ilv": zlib.crc32(repr((sim.switches, fl)).encode()), "log": sim.log[-400:],
             "nlog": len(sim.log)}
        r.setdefault("nontrivial", True)
        r.update(kw)
        if sim.aborting == "deadlock":
            r["viol"] = viol + [{"class": "deadlock", "msg": "all callers blocked for ever"}]
        elif sim.aborting == "step cap":
            r["viol"] = viol + [{"class": "no-progress",
                                 "msg": "run exceeded %d steps" % sim.max_steps}]
        return r


def outcome(fn):
    """Call the system under test: ('ok', value) or ('exc', type name, text)."""
    try:
        return ("ok", fn())
    except (SimKill, SimAbort):
        raise
    except BaseException as e:
        o = ("exc", type(e).__name__, str(e)[:200])
        e.__traceback__ = None
        del e
        return o


def pick_faults(rng, menu, pmax=2, p_none=0.5):
    """menu: list of (site, kinds, max_nth)."""
    out = []
    if not menu or rng.random() < p_none:
        return out
    sites = [m[0] for m in menu]
    if "fs.replace" in sites and rng.random() < 0.06:
        # a step fails, and what is done about it fails, too
        site, kinds, mx = rng.choice([m for m in menu if m[0].startswith(("fs.", "net."))])
        if rng.random() < 0.5:
            site, kinds, mx = "fs.replace", ["EACCES", "EIO", "ENOSPC"], 1
        return [{"site": site, "nth": rng.randint(1, mx), "kind": rng.choice(kinds)},
                {"site": "after", "nth": rng.randint(1, 9), "kind": "kill" if "seam" in sites and rng.random() < 0.6 else rng.choice(["ENOSPC", "EIO", "EACCES"])}]
    for _ in range(rng.randint(1, pmax)):
        site, kinds, mx = rng.choice(menu)
        nth = 1 + int((mx) ** rng.random()) - 1 if mx > 1 else 1
        out.append({"site": site, "nth": max(1, nth), "kind": rng.choice(kinds)})
    return out


def op_fault(sim, me):
    """Did an injected fault hit the current operation of this task (since its 'call' event)?"""
    for e in reversed(sim.log):
        if e[2] == "call" and e[3] == me.op["id"]:
            return False
        if e[2] == "fault" and e[3] == me.idx:
            return True
    return False
