"""Shared by C16-C18: a simulated telemetry feed.

Links send one sample per time step; messages are lost, duplicated, delayed, reordered, held back by stalled
links; the collector closes a step after a fixed wait on its own (possibly skewed) clock, can crash and lose
what it has not yet closed, and restart; a consumer polls at arbitrary times and runs pycomlink on the record.
Everything is one event queue on the simulated clock."""
import heapq

import numpy as np

from .. import procs, seams
from ..kernel import Proc
from .base import BaseWorld, op_fault


def feed_faults(rng, L, T, n):
    """n random transport faults as plan operations."""
    ops = []
    for _ in range(n):
        k = rng.choices(["loss", "outage", "delay", "dup", "stall", "crash", "skew", "weak"], [8, 2, 4, 3, 3, 2, 1, 1])[0]
        op = {"k": k, "at": rng.randrange(T), "l": rng.randrange(L), "n": 1 + int((8 if T < 100 else T) ** rng.random()) - 1 or 1,
              "by": rng.choice([0.5, 1.5, 3.0, 6.0])}
        if k == "crash":
            op["n"] = rng.choice([0, 1, 3])
        elif k == "weak":               # every second or fifth message of a link gets lost for some time
            op.update(n=rng.choice([6, 12, T]), by=rng.choice([0.2, 0.5]), seed=rng.getrandbits(16))
        ops.append(op)
    return ops


class Collector:
    """Durable: closed steps.  In memory: samples of steps still open."""

    def __init__(self, L, T, wait):
        self.L, self.T, self.wait = L, T, wait
        self.cols, self.open, self.up, self.skew = [], {}, True, 0.0
        self.arrived = []            # everything that came in, in order of arrival, with repetitions
        self.late = 0

    def receive(self, l, k):
        if not self.up:
            return False
        self.arrived.append((l, k))
        if k < len(self.cols):
            self.late += 1
            return True
        self.open.setdefault(k, set()).add(l)
        return True

    def close(self, now):
        """Close all steps whose time is over."""
        while self.up and len(self.cols) < self.T and now + self.skew >= len(self.cols) + self.wait:
            got = self.open.pop(len(self.cols), set())
            self.cols.append(np.array([l in got for l in range(self.L)]))

    def crash(self):
        self.up, self.open = False, {}


class FeedWorld(BaseWorld):
    stub = ["the links, their telemetry and the collector (simulated)", "clock", "process interrupts, allocation failures"]
    max_steps = 3000000

    def prepare(self):
        super().prepare()
        self.instance = procs.new_instance(self.modules)      # every run is forked from here

    def execute(self, plan, root):
        s = self.s = self.sim(plan, self.max_steps)
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.proc = Proc(s, "p")
        self.proc.modules = self.instance
        procs.swap_in(self.proc.modules)
        self.root = root
        self.setup(plan)
        s.spawn(self.proc, lambda me: self.loop(me, plan), "loop")
        s.run()
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks, nontrivial=self.nontrivial())

    def nontrivial(self):
        return self.npolls > 1 and sum(self.s.fired.values()) > 0

    def bad(self, cls, msg):
        if not any(v["class"] == cls for v in self.viol):
            self.viol.append({"class": cls, "msg": msg})

    def fire(self, kind, n=1):
        self.s.fired[kind] = self.s.fired.get(kind, 0) + n

    def loop(self, me, plan):
        s, f = self.s, plan["feed"]
        L, T = f["L"], f["T"]
        c = self.col = Collector(L, T, f["wait"])
        q = []
        r = np.random.RandomState(f["seed"] & 0x7FFFFFFF)
        delay = r.exponential(f["jitter"], (L, T)) if f["jitter"] else np.zeros((L, T))
        lost = np.zeros((L, T), bool)
        why = {}
        extra = np.zeros((L, T))
        dups = []
        seq = 0
        ops = [o for t in plan["tasks"] for o in t["ops"]]
        self.npolls = 0
        for o in ops:
            k, a, b = o["k"], o["at"], min(T, o["at"] + max(1, o.get("n", 1)))
            if k == "loss":
                lost[o["l"] % L, a:b] = True
            elif k == "weak":
                lost[o["l"] % L, a:b] |= np.random.RandomState(o["seed"]).uniform(size=b - a) < o["by"]
            elif k == "outage":
                lost[:, a:b] = True
            elif k == "delay":
                extra[o["l"] % L, a:b] += o["by"]
            elif k == "dup":
                dups.append((o["l"] % L, min(a, T - 1), o["by"]))
            elif k == "stall":
                # held back and released together, newest first
                for j in range(a, b):
                    extra[o["l"] % L, j] += (b - j) + 0.01 * (b - j)
        for l in range(L):
            for k in range(T):
                if lost[l, k]:
                    self.fire("loss")
                    continue
                if extra[l, k]:
                    self.fire("delay")
                seq += 1
                heapq.heappush(q, (k + delay[l, k] + extra[l, k], 0, seq, "msg", (l, k)))
        for l, k, by in dups:
            if not lost[l, k]:
                self.fire("dup")
                seq += 1
                heapq.heappush(q, (k + delay[l, k] + by, 0, seq, "msg", (l, k)))
        for o in ops:
            seq += 1
            if o["k"] == "crash":
                heapq.heappush(q, (o["at"] + 0.3, 1, seq, "crash", o))
                heapq.heappush(q, (o["at"] + 0.3 + o["n"], 1, seq, "restart", o))
            elif o["k"] == "skew":
                heapq.heappush(q, (o["at"], 1, seq, "skew", o["by"] if o["l"] % 2 else -o["by"]))
                heapq.heappush(q, (o["at"] + 3, 1, seq, "skew", 0.0))
            elif o["k"] == "poll":
                heapq.heappush(q, (o["at"], 3, seq, "poll", o))
        for k in range(T + int(f["wait"]) + 14):
            seq += 1
            heapq.heappush(q, (k + 0.999, 2, seq, "close", None))
        last = -1.0
        while q:
            t, _, n, kind, arg = heapq.heappop(q)
            s.now = s.t0 + t * 60.0
            s.tick(me, hash_kind(kind), n & 0xFFFF)
            if kind == "msg":
                if not c.receive(*arg):
                    self.fire("lost-while-down")
                c.close(t)
            elif kind == "crash":
                c.crash()
                self.fire("collector-crash")
            elif kind == "restart":
                c.up = True
                c.close(t)
            elif kind == "skew":
                c.skew = arg
                if arg:
                    self.fire("clock-skew")
            elif kind == "close":
                c.close(t)
            elif kind == "poll":
                c.close(t)
                self.run_poll(me, arg, t)
            last = t
        c.up = True
        c.skew = 0.0
        c.close(10 * T + 100)
        self.run_poll(me, {"k": "poll", "at": last, "final": True}, last)
        if c.late:
            self.fire("late", c.late)

    def run_poll(self, me, op, t):
        self.npolls += 1
        self.nops += 1
        me.op = {"id": "poll%d" % self.npolls}
        me.counts, me.faults = {}, list(op.get("faults") or [])
        self.s.event("poll", self.npolls, len(self.col.cols), len(self.col.arrived))
        self.poll(me, op)
        me.faults = []

    def have(self):
        """links x closed steps: was the sample delivered in time?"""
        c = self.col
        return np.array(c.cols, bool).reshape(len(c.cols), c.L).T


_K = {"msg": 1, "crash": 2, "restart": 3, "skew": 4, "close": 5, "poll": 6}


def hash_kind(k):
    return _K[k]
