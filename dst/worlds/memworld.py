"""Shared by C11-C15: several threads of one process call stateful or supposedly stateless code in
every order, with interrupts and failing calls, reusing and changing arrays in place.  Oracle: the
same call, alone, in a pristine instance of the modules, with copies of the arguments taken when the
call started."""
import copy

import numpy as np
import pandas as pd
import xarray as xr

from .. import procs, seams
from ..kernel import Proc
from .base import BaseWorld, outcome, op_fault


def same(a, b, rtol=0.0, atol=0.0, strict=True):
    """Structural equality.  strict: also types, names and attributes."""
    if a is b:
        return True
    if isinstance(a, xr.Dataset) or isinstance(b, xr.Dataset):
        if not (isinstance(a, xr.Dataset) and isinstance(b, xr.Dataset)):
            return False
        if set(a.variables) != set(b.variables) or set(a.coords) != set(b.coords):
            return False
        if strict and not same(dict(a.attrs), dict(b.attrs)):
            return False
        return all(same(a[k].variable, b[k].variable, rtol, atol, strict) for k in a.variables)
    if isinstance(a, xr.DataArray) or isinstance(b, xr.DataArray):
        if not (isinstance(a, xr.DataArray) and isinstance(b, xr.DataArray)):
            return False
        if strict and a.name != b.name:
            return False
        if set(a.coords) != set(b.coords):
            return False
        return same(a.variable, b.variable, rtol, atol, strict) and all(
            same(a.coords[k].variable, b.coords[k].variable, rtol, atol, strict) for k in a.coords)
    if isinstance(a, xr.Variable) and isinstance(b, xr.Variable):
        if a.dims != b.dims:
            return False
        if strict and not same(dict(a.attrs), dict(b.attrs)):
            return False
        return same(np.asarray(a.values), np.asarray(b.values), rtol, atol, strict)
    if isinstance(a, (pd.Series, pd.DataFrame)) or isinstance(b, (pd.Series, pd.DataFrame)):
        if type(a) is not type(b):
            return False
        if strict and getattr(a, "name", None) != getattr(b, "name", None):
            return False
        if isinstance(a, pd.DataFrame) and list(a.columns) != list(b.columns):
            return False
        return same(a.index, b.index, 0, 0, strict) and same(a.values, b.values, rtol, atol, strict)
    if isinstance(a, pd.Index) or isinstance(b, pd.Index):
        return type(a) is type(b) and a.equals(b) and (not strict or (a.name == b.name and str(a.dtype) == str(b.dtype)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (not strict or type(a) is type(b) or True) and len(a) == len(b) and all(
            same(x, y, rtol, atol, strict) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], rtol, atol, strict) for k in a) if strict else \
            set(a) == set(b) and all(same(a[k], b[k], rtol, atol, strict) for k in a)
    if isinstance(a, (np.ndarray, np.generic, float, int, bool)) and isinstance(b, (np.ndarray, np.generic, float, int, bool)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if strict and a.dtype != b.dtype:
            return False
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            return all(same(x, y, rtol, atol, strict) or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
        num = a.dtype.kind in "fc" or b.dtype.kind in "fc"
        if not num:
            return bool(np.array_equal(a, b)) if a.dtype.kind not in "mM" else bool(np.array_equal(a, b, equal_nan=True))
        with np.errstate(all="ignore"):
            if rtol == 0.0 and atol == 0.0:
                return bool(np.array_equal(a, b, equal_nan=True))
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if da is not None and db is not None and type(a).__name__ == type(b).__name__:
        return same(da, db, rtol, atol, strict)
    try:
        return bool(a == b)
    except Exception:
        return False


def scribble(x, v=-77.0, depth=0):
    """The user changes, in place, something he got."""
    if depth > 4:
        return
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind == "f":
                x[...] = v
            elif x.dtype.kind == "b":
                x[...] = ~x
            elif x.dtype.kind in "iu":
                x[...] = 7
        elif isinstance(x, xr.Dataset):
            for k in x.data_vars:
                scribble(x[k].values, v, depth + 1)
        elif isinstance(x, xr.DataArray):
            scribble(x.values, v, depth + 1)
        elif isinstance(x, (pd.Series, pd.DataFrame)):
            x.iloc[:] = v
        elif isinstance(x, (list, tuple)):
            for y in x:
                scribble(y, v, depth + 1)
        elif isinstance(x, dict):
            for y in x.values():
                scribble(y, v, depth + 1)
    except Exception:
        pass


def brief(x):
    if isinstance(x, xr.DataArray):
        return "%s%s" % (x.dims, brief(x.values))
    if isinstance(x, np.ndarray):
        return "%s%s" % (x.shape, np.array2string(x.ravel()[:8], precision=6, threshold=8))
    if isinstance(x, (tuple, list)):
        return "[%s]" % ", ".join(brief(y) for y in x[:4])
    return str(x)[:160]


class MemWorld(BaseWorld):
    npristine = 16
    max_steps = 600000
    stub = ["clock", "process interrupts, allocation failures"]

    def prepare(self):
        super().prepare()
        self.pristine = [procs.new_instance(self.modules) for _ in range(self.npristine)]

    def fresh(self):
        if self.pristine:
            return self.pristine.pop()
        return procs.new_instance(self.modules)

    def setup(self, plan):
        pass

    def finish(self, plan):
        pass

    def execute(self, plan, root):
        s = self.s = self.sim(plan, self.max_steps)
        seams.install_clock(s)
        seams.install_entropy(s, plan["sched"])
        seams.install_locks(procs.REPO)
        np.random.seed(plan["sched"] & 0x7FFFFFFF)
        self.viol, self.nchecks, self.nops = [], 0, 0
        self.running, self.overlaps, self.again = {}, 0, 0
        self.proc = Proc(s, "p")
        self.proc.modules = self.fresh()
        procs.swap_in(self.proc.modules)
        self.kept = []
        self.setup(plan)
        for ti, t in enumerate(plan["tasks"]):
            s.spawn(self.proc, lambda me, t=t: self.body(me, t, plan), "t%d" % ti)
        s.run()
        if s.aborting is None:
            self.finish(plan)
        return self.result(s, self.viol, nops=self.nops, nchecks=self.nchecks,
                           nontrivial=bool(self.nops > 1 and (self.overlaps or self.again or sum(s.fired.values()))))

    def bad(self, cls, msg):
        self.viol.append({"class": cls, "msg": msg})

    def body(self, me, t, plan):
        for i, op in enumerate(t["ops"]):
            me.op = {"id": "%d.%d" % (me.idx, i)}
            me.counts, me.faults = {}, list(op.get("faults") or [])
            self.s.seam("op", op["k"])
            self.nops += 1
            self.do(me, op)

    # ------------------------------------------------------------ one call
    def checked(self, me, what, call, oracle, args, objkey=None, rtol=1e-9, atol=1e-12, keep=True):
        """Make one call of the system under test and judge it.

        call(): the call with `args`; oracle(mods, args_copy): the same in a pristine instance.
        Returns (outcome, oracle outcome, fault fired, overlapped)."""
        s = self.s
        me.nofault += 1
        before = copy.deepcopy(args)
        rid = me.op["id"]
        if self.running:
            self.overlaps += 1
            for r in self.running.values():
                if r["obj"] == objkey:
                    r["overlap"] = True
        rec = {"obj": objkey, "overlap": any(r["obj"] == objkey for r in self.running.values())}
        self.running[rid] = rec
        me.nofault -= 1
        s.event("call", rid, what)
        o = outcome(call)
        me.nofault += 1
        del self.running[rid]
        self.nchecks += 1
        fault = op_fault(s, me)
        s.event("return", rid, o[0], o[1] if o[0] == "exc" else brief(o[1]))
        if not same(args, before):
            self.bad("input-modified", "%s changed an argument of the caller" % what)
        mods = self.fresh()
        saved = self.proc.modules
        procs.swap_in(mods)
        try:
            e = outcome(lambda: oracle(mods, copy.deepcopy(before)))
        finally:
            procs.swap_in(saved)
        if o[0] == "ok":
            if e[0] == "exc":
                self.bad("differs-from-fresh", "%s returned %s, but alone it fails with %s %s" % (what, brief(o[1]), e[1], e[2]))
            elif not same(o[1], e[1], rtol, atol, strict=False):
                self.bad("differs-from-fresh", "%s returned %s, but alone it returns %s" % (what, brief(o[1]), brief(e[1])))
        elif e[0] == "ok" and not fault:
            self.bad("fails-with-history", "%s failed with %s %s, but alone it succeeds" % (what, o[1], o[2]))
        # results handed out earlier must not have changed
        for k in self.kept:
            if not same(k[0], k[1]):
                self.bad("earlier-result-changed", "%s changed the result of an earlier call (%s)" % (what, k[2]))
                k[1] = copy.deepcopy(k[0])
        if o[0] == "ok" and keep:
            self.kept.append([o[1], copy.deepcopy(o[1]), what])
            if len(self.kept) > 6:
                self.kept.pop(0)
        me.nofault -= 1
        return o, e, fault, rec["overlap"]

    def user_scribbles(self, o, args, what):
        """The user overwrites a result; nothing else may change."""
        before = copy.deepcopy(args)
        mine = [k for k in self.kept if k[0] is o[1]]
        scribble(o[1])
        for k in mine:
            k[1] = copy.deepcopy(k[0])
        if not same(args, before):
            self.bad("result-aliases-input", "writing into the result of %s changed the caller's input" % what)
        for k in self.kept:
            if not same(k[0], k[1]):
                self.bad("results-aliased", "writing into the result of %s changed the result of %s" % (what, k[2]))
                k[1] = copy.deepcopy(k[0])

    def user_changes_args(self, fn, what="changing an argument later"):
        """The user changes his arrays in place; results he got must not follow."""
        fn()
        for k in self.kept:
            if not same(k[0], k[1]):
                self.bad("result-follows-input", "changing an input array later changed the result of %s" % k[2])
                k[1] = copy.deepcopy(k[0])
