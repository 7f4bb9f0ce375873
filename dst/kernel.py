"""Deterministic scheduler.

Simulated threads ("tasks") are real threads, but exactly one of them runs at any time and the
next one to run is decided only here: by a PRNG, or by an explicit switch list on replay.  Tasks
can be switched, interrupted or killed at every seam operation and at every line (or bytecode
instruction) executed in code of the system under test (sys.monitoring, no hooks in the code).
"""
import _thread
import random
import sys
import zlib

_allocate = _thread.allocate_lock
_start_thread = _thread.start_new_thread
_get_ident = _thread.get_ident

SUT_CODES = []          # code objects of the system under test (filled by procs.py)
TOOL = 4                # sys.monitoring tool id
_mon = sys.monitoring
_code_crc = {}
CURRENT = None          # the running Sim


class SimKill(BaseException):
    """The simulated process was killed."""


class SimAbort(BaseException):
    """The run is being torn down."""


class HarnessError(Exception):
    pass


class Proc:
    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.pid = 1000 + len(sim.procs)
        self.alive = True
        self.modules = None     # sys.modules entries of this simulated process
        self.gen = 0
        sim.procs.append(self)


class Task:
    def __init__(self, sim, proc, fn, name):
        self.sim, self.proc, self.fn, self.name = sim, proc, fn, name
        self.idx = len(sim.tasks)
        self.lock = _allocate()
        self.lock.acquire()
        self.done = False
        self.killed = False
        self.pred = None        # not runnable until pred() is true ...
        self.wake = None        # ... or until this time
        self.error = None
        self.faults = []
        self.counts = {}
        self.nofault = 0
        self.op = None
        sim.tasks.append(self)


class Sim:
    def __init__(self, seed=0, switches=None, p_line=0.0, p_seam=0.0, grain=None,
                 max_steps=400000):
        self.rng = random.Random(seed)
        self.explicit = None if switches is None else {int(k): v for k, v in switches}
        self.p_line, self.p_seam, self.grain = p_line, p_seam, grain
        self.tasks, self.procs = [], []
        self.cur = None
        self.by_ident = {}
        self.yields = 0
        self.steps = 0
        self.max_steps = max_steps
        self.switches = []
        self.now = 1.6e9
        self.t0 = self.now
        self.seq = 0
        self.digest = 0
        self.aborting = None
        self.main_lock = _allocate()
        self.main_lock.acquire()
        self.fired = {}
        self.probes = {}
        self.log = []
        self.on_kill = None
        self.after_kill = None
        self.on_switch_proc = None
        self.on_seam = None
        self.pinned = None      # callable: the running task holds a lock the simulator cannot see
        self.context_switches = 0
        self.seam_count = 0
        self.line_count = 0

    # ------------------------------------------------------------------ tasks
    def spawn(self, proc, fn, name):
        t = Task(self, proc, fn, name)
        return t

    def _body(self, t):
        self.by_ident[_get_ident()] = t
        t.lock.acquire()
        try:
            if self.aborting is None and not t.killed:
                t.fn(t)
        except SimKill:
            pass
        except SimAbort:
            pass
        except BaseException as e:      # noqa: harness bug inside task body
            t.error = e
            import traceback
            t.error_tb = traceback.format_exc()
        t.done = True
        self._leave(t)

    def run(self):
        global CURRENT
        CURRENT = self
        for t in self.tasks:
            t.started = True
            _start_thread(self._body, (t,))
        self.cur = None
        self._dispatch(None)
        self.main_lock.acquire()
        CURRENT = None
        for t in self.tasks:
            if t.error is not None:
                raise HarnessError("task %s: %r\n%s" % (t.name, t.error, t.error_tb))

    def _runnable(self):
        dying = [t for t in self.tasks if t.killed and not t.done]
        if dying:
            return dying
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is not None:
                try:
                    ok = t.pred()
                except BaseException as e:
                    raise HarnessError("predicate: %r" % (e,))
                if not ok and not (t.wake is not None and t.wake <= self.now):
                    continue
            elif t.wake is not None and t.wake > self.now:
                continue
            out.append(t)
        return out

    def _leave(self, t):
        self._dispatch(t)

    def _dispatch(self, prev):
        """prev gave up the CPU for good (or nobody ran): start somebody."""
        nxt = self._pick_forced(prev)
        if nxt is None:
            self.main_lock.release()
            return
        self._activate(nxt)
        nxt.lock.release()

    def _pick_forced(self, prev):
        if self.aborting is not None:
            for t in self.tasks:
                if not t.done:
                    return t
            return None
        while True:
            if all(t.done for t in self.tasks):
                return None
            r = self._runnable()
            if r:
                break
            wakes = [t.wake for t in self.tasks if not t.done and t.wake is not None]
            if not wakes:
                self.aborting = "deadlock"
                return self._pick_forced(prev)
            self.now = max(self.now, min(wakes))
        return self._choose(prev, r, True)

    def _choose(self, cur, r, forced):
        """Decide who runs next.  Default: stay; if impossible: next in cyclic order."""
        self.yields += 1
        y = self.yields
        if not forced and cur in r:
            default = cur
        else:
            base = -1 if cur is None else cur.idx
            default = min(r, key=lambda t: (t.idx <= base, t.idx))
        if len(r) == 1:
            return r[0]
        if self.explicit is not None:
            want = self.explicit.get(y)
            for t in r:
                if t.idx == want:
                    if t is not default:
                        self.switches.append((y, t.idx))
                    return t
            return default
        if forced:
            t = self.rng.choice(r)
        else:
            t = self.rng.choice(r)
        if t is not default:
            self.switches.append((y, t.idx))
        return t

    def _activate(self, t):
        prev = self.cur
        if prev is not t:
            self.context_switches += 1
        self.cur = t
        t.pred = None
        t.wake = None
        if self.on_switch_proc is not None and (prev is None or prev.proc is not t.proc):
            self.on_switch_proc(t.proc)

    def _transfer(self, me, nxt):
        if nxt is me:
            self._activate(me)
            return
        self._activate(nxt)
        nxt.lock.release()
        me.lock.acquire()
        self._resumed(me)

    def _resumed(self, me):
        if self.aborting is not None:
            raise SimAbort()
        if me.killed:
            raise SimKill()

    # ------------------------------------------------------------ yield points
    def current(self):
        return self.by_ident.get(_get_ident())

    def maybe_switch(self, me, p):
        if len(self.tasks) == 1:
            return
        if self.pinned is not None and self.pinned():
            return
        if self.explicit is not None:
            if (self.yields + 1) not in self.explicit:
                self.yields += 1
                return
        else:
            if p <= 0.0 or self.rng.random() >= p:
                self.yields += 1
                return
        r = self._runnable()
        nxt = self._choose(me, r, False)
        if nxt is not me:
            self._transfer(me, nxt)

    def tick(self, me, a, b):
        self.steps += 1
        self.digest = zlib.crc32(b"%d,%d,%d" % (me.idx, a, b), self.digest)
        if self.steps > self.max_steps:
            self.aborting = "step cap"
            raise SimAbort()

    def block(self, pred=None, until=None, what="block"):
        me = self.current()
        if me is None:
            raise HarnessError("block outside task: " + what)
        if me.killed:
            raise SimKill()
        if pred is not None and pred():
            return True
        me.pred, me.wake = pred, until
        nxt = self._pick_forced(me)
        if nxt is None:
            raise HarnessError("block with nobody left")
        if nxt is me:
            self._activate(me)
            self._resumed(me)
        else:
            self._transfer(me, nxt)
        return pred is None or pred()

    def seam(self, site, info=0):
        """A seam operation of the running task is about to happen.  Returns an injected fault
        kind to be realised by the seam, or None."""
        me = self.current()
        if me is None:
            return None
        if me.killed:
            raise SimKill()
        if self.aborting is not None:
            raise SimAbort()
        self.seam_count += 1
        self.tick(me, _crc(site), _crc(info))
        if self.on_seam is not None:
            self.on_seam(me, site, info)
        if me.nofault:
            return None
        self.maybe_switch(me, self.p_seam)
        return self._fault(me, site)

    def _fault(self, me, site):
        hit = None
        c = me.counts
        n = c[site] = c.get(site, 0) + 1
        fs = me.faults
        if not fs:
            return None
        m = 0
        if site != "line":
            m = c["seam"] = c.get("seam", 0) + 1
        a = 0
        if "hit" in c and m:
            a = c["after"] = c.get("after", 0) + 1
        for f in fs:
            s = f["site"]
            if (s == site and f["nth"] == n) or (s == "seam" and m and f["nth"] == m) or (s == "after" and a and f["nth"] == a):
                hit = f["kind"]
                break
        if hit is None:
            return None
        c["hit"] = 1
        self.fired[hit] = self.fired.get(hit, 0) + 1
        self.event("fault", me.idx, site, n, hit)
        if hit == "kill":
            self.kill(me.proc)
            raise SimKill()
        if hit == "interrupt":
            raise KeyboardInterrupt()
        if hit == "nomem":
            raise MemoryError("simulated allocation failure")
        return hit

    def kill(self, proc):
        proc.alive = False
        if self.on_kill is not None:
            self.on_kill(proc)
        for t in self.tasks:
            if t.proc is proc and not t.done:
                t.killed = True

    def revive(self, task, proc):
        """The body of a killed task has unwound: continue it as a new process."""
        task.killed = False
        task.proc = proc
        task.faults = []
        task.counts = {}
        if self.on_switch_proc is not None:
            self.on_switch_proc(proc)
        self.cur = task

    def line(self, code, no):
        me = self.current()
        if me is None or me.killed or self.cur is not me:
            return
        if self.aborting is not None:
            raise SimAbort()
        if me.nofault:
            return
        self.line_count += 1
        crc = _code_crc.get(code)
        if crc is None:
            crc = _code_crc[code] = zlib.crc32(code.co_qualname.encode())
        self.tick(me, crc, no)
        self.maybe_switch(me, self.p_line)
        self._fault(me, "line")

    def event(self, *what):
        self.seq += 1
        self.log.append((self.seq, round(self.now - self.t0, 6)) + what)
        self.digest = zlib.crc32(repr(what).encode(), self.digest)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def sleep(self, dt):
        self.block(until=self.now + max(0.0, float(dt)), what="sleep")


def _crc(x):
    if isinstance(x, int):
        return x
    return zlib.crc32(str(x).encode())


# ------------------------------------------------------------------ monitoring
def _on_line(code, no):
    s = CURRENT
    if s is not None:
        s.line(code, no)


def install_monitoring(grain):
    """grain: None, 'line' or 'instr'"""
    if grain is None:
        return
    ev = _mon.events.LINE if grain == "line" else _mon.events.INSTRUCTION
    if _mon.get_tool(TOOL) is None:
        _mon.use_tool_id(TOOL, "dst")
    _mon.register_callback(TOOL, ev, _on_line)
    for c in SUT_CODES:
        _mon.set_local_events(TOOL, c, ev)


# ------------------------------------------------------------------ sim locks
class SimLock:
    """threading.Lock / RLock replacement for locks created by the system under test."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.real = _thread.RLock() if reentrant else _allocate()

    def _me(self):
        s = CURRENT
        return (s, s.current()) if s is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if me is None:
            return self.real.acquire(blocking, timeout)
        if me.killed:
            raise SimKill()
        s.seam("lock")
        if self.owner is me and self.reentrant:
            self.count += 1
            return True
        free = lambda: self.owner is None or self.owner.killed or self.owner.done
        if not free():
            if not blocking:
                return False
            until = None if timeout is None or timeout < 0 else s.now + timeout
            if not s.block(free, until, "lock"):
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        s, me = self._me()
        if me is None:
            if self.owner is not None:
                self.owner, self.count = None, 0
                return
            return self.real.release()
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        s, me = self._me()
        return self.owner is me and me is not None

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[1]


def lock_factories(sut_prefix):
    import threading
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_sut():
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(sut_prefix):
                return True
            f = f.f_back
        return False

    def Lock():
        return SimLock(False) if from_sut() else real_lock()

    def RLock():
        return SimLock(True) if from_sut() else real_rlock()

    return Lock, RLock
