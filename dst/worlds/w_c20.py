"""C20: coverage mask of a changing network."""
import copy

import numpy as np

from .base import pick_faults
from .memworld import MemWorld, brief

CV = "pycomlink.spatial.coverage"


class Link:
    """What the coverage mask needs of a CML object."""

    def __init__(self, i, xy):
        self.cml_id = i
        self.metadata = dict(zip(("site_a_longitude", "site_a_latitude", "site_b_longitude", "site_b_latitude"), xy), frequency=18e9)

    def xy(self):
        m = self.metadata
        return [m["site_a_longitude"], m["site_a_latitude"], m["site_b_longitude"], m["site_b_latitude"]]


def distance(px, py, x1, y1, x2, y2):
    """Distance of points from a path, from its definition."""
    dx, dy = x2 - x1, y2 - y1
    n = dx * dx + dy * dy
    t = np.clip(((px - x1) * dx + (py - y1) * dy) / n, 0, 1) if n > 0 else np.zeros_like(px)
    return np.hypot(px - (x1 + t * dx), py - (y1 + t * dy))


class World(MemWorld):
    modules = [CV]
    quick = (4000, 30)
    npristine = 16
    real = [CV, "shapely, numpy, tqdm (without its monitor thread)"]
    stub = ["CML objects: plain objects with metadata", "clock", "process interrupts, allocation failures"]
    assumptions = ["shapely approximates a round buffer from inside within 1.5 %: points that close to the limit are not judged",
                   "links, lists and grids are changed only while no call uses them"]
    rule = ("plans: 1-3 threads sharing 1-2 lists of 0-6 (rarely 25) links (short, long, doubled, rings, off the grid) and 1-2 regular and irregular grids in several memory layouts, number types and coordinate systems, 2-10 operations: coverage "
            "masks, links joining, leaving, moving, lists reordered, grids changed in place, interrupts; non-trivial: a fault fired, calls "
            "overlapped or a list was used again")

    def prepare(self):
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        super().prepare()

    def plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        q = lambda: round(rng.uniform(0, 10), 2)
        links = []
        big = rng.random() < 0.03
        sites = [[q(), q()] for _ in range(rng.choice([3, 4, 5]))]
        if rng.random() < 0.1:
            sites = [[1.0, 1.0], [9.0, 1.2], [8.8, 9.0], [1.1, 8.7]]
            links = [a + b for a, b in zip(sites, sites[1:] + sites[:1])]
        for i in range(rng.choice([12, 25]) if big else rng.choice([1, 2, 3, 4, 6])):
            kind = rng.choice(["new", "new", "new", "net", "net", "same", "rev", "off", "short", "point", "vert"]) if links else "new"
            xy = [q(), q(), q(), q()]
            if kind == "net":
                xy = sum(rng.sample(sites, 2), [])
            if kind == "same":
                xy = list(links[-1])
            elif kind == "rev":
                xy = links[-1][2:] + links[-1][:2]
            elif kind == "off":
                xy = [30.0, -10.0, 31.5, -11.0]
            elif kind == "short":
                xy[2], xy[3] = xy[0] + 0.05, xy[1] - 0.05
            elif kind == "vert":
                xy[2] = xy[0]
            elif kind == "point":
                xy[2], xy[3] = xy[0], xy[1]
            links.append(xy)
        L = len(links)
        lists = [[i for i in range(L) if rng.random() < 0.7] for _ in range(rng.choice([1, 1, 2]))]
        grids = [{"nx": 21 if big else rng.choice([1, 3, 5, 7]), "ny": 16 if big else rng.choice([1, 3, 5, 8]), "jit": rng.choice([0, 0, 0.5]), "skew": rng.choice([0, 0, 0, 0.4]), "lay": rng.choice(["C", "C", "F", "T", "S"]), "seed": rng.getrandbits(16)} for _ in range(rng.choice([1, 1, 2]))]
        tasks = [{"ops": []} for _ in range(nt)]
        p_none = rng.choice([0.4, 0.7, 0.95])
        for _ in range(rng.randint(2, 10)):
            op = {"k": rng.choices(["mask", "mut"], [10, 5])[0], "o": rng.randrange(len(lists)), "g": rng.randrange(len(grids)), "l": rng.randrange(L),
                  "faults": pick_faults(rng, [("line", ["interrupt", "nomem"], 60)], p_none=p_none)}
            if op["k"] == "mask":
                op.update(d=rng.choice([0.3, 1.0, 1.0, 2.5, 6.0]), tup=rng.random() < 0.1, mess=rng.random() < 0.3)
            else:
                op.update(what=rng.choice(["join", "leave", "move", "meta", "order", "grid"]), by=rng.choice([1.5, -2.0, 4.0]), seed=rng.getrandbits(16))
            rng.choice(tasks)["ops"].append(op)
        # degrees, metres of a projection, a region west of Greenwich, a city
        scale, off = rng.choice([(1, (0, 0))] * 6 + [(1000, (500000, 5500000)), (1, (-75, -40)), (0.01, (11, 48)), (100, (0, 0))])
        links = [[v * scale + off[i % 2] for i, v in enumerate(l)] for l in links]
        for t in tasks:
            for op in t["ops"]:
                for k in ("d", "by"):
                    if k in op:
                        op[k] *= scale
        for g in grids:
            g.update(scale=scale, off=off, int=scale >= 1 and rng.random() < 0.15)
        plan = {"tasks": tasks, "links": links, "lists": lists, "grids": grids}
        plan.update(self.sched(rng, nt, line=(0.05, 0.2, 0.5), instr=0.2))
        return plan

    def setup(self, plan):
        self.links = [Link("l%d" % i, xy) for i, xy in enumerate(plan["links"])]
        self.lists = [[self.links[i] for i in l] for l in plan["lists"]]
        self.grids = []
        for g in plan["grids"]:
            r = np.random.RandomState(g["seed"])
            X, Y = np.meshgrid(np.linspace(0.1, 9.9, g["nx"]), np.linspace(0.3, 9.7, g["ny"]))
            X, Y = X + g["skew"] * Y + g["jit"] * r.uniform(-1, 1, X.shape), Y - g["skew"] * X + g["jit"] * r.uniform(-1, 1, X.shape)
            X, Y = X * g["scale"] + g["off"][0], Y * g["scale"] + g["off"][1]
            if g["int"]:
                X, Y = X.astype(int), Y.astype(int)
            if g["lay"] == "F":
                X, Y = np.asfortranarray(X), np.asfortranarray(Y)
            elif g["lay"] == "T":
                X, Y = X.T, Y.T
            elif g["lay"] == "S":
                X, Y = np.repeat(X, 2, 0)[::2], np.repeat(Y, 2, 1)[:, ::2]
            self.grids.append([X, Y])
        self.used = set()

    def do(self, me, op):
        getattr(self, "op_" + op["k"])(me, op)

    def op_mask(self, me, op):
        me.nofault += 1
        args = {"links": tuple(self.lists[op["o"]]) if op["tup"] else self.lists[op["o"]], "x": self.grids[op["g"]][0], "y": self.grids[op["g"]][1], "d": op["d"]}
        self.again += op["o"] in self.used
        self.used.add(op["o"])
        paths = [l.xy() for l in args["links"]]
        x, y = args["x"].copy(), args["y"].copy()
        me.nofault -= 1
        o, e, fault, ov = self.checked(me, "calc_coverage_mask", lambda: self.proc.modules[CV].calc_coverage_mask(args["links"], args["x"], args["y"], args["d"]),
                                       lambda m, a: m[CV].calc_coverage_mask(a["links"], a["x"], a["y"], a["d"]), args, op["o"])
        me.nofault += 1
        if o[0] == "ok":
            self.against(o[1], paths, x, y, op["d"])
            if op["mess"]:
                self.user_scribbles(o, args, "calc_coverage_mask")
        elif not fault:
            self.bad("fails", "the coverage mask of %d links on a %s grid failed: %s %s" % (len(paths), x.shape, o[1], o[2]))
        me.nofault -= 1

    def against(self, mask, paths, x, y, d):
        if np.shape(mask) != x.shape or np.asarray(mask).dtype != bool:
            return self.bad("shape", "mask of shape %s and type %s for a grid of shape %s" % (np.shape(mask), np.asarray(mask).dtype, x.shape))
        r = np.full(x.shape, np.inf)
        for p in paths:
            r = np.minimum(r, distance(x, y, *p))
        wrong = (mask & (r > d * 1.001)) | (~mask & (r < d * 0.985))
        if wrong.any():
            i = tuple(np.argwhere(wrong)[0])
            self.bad("wrong-mask", "grid point %s is %scovered, its distance from the nearest of %d links is %.3f, the limit %.2f"
                     % (i, "" if mask[i] else "not ", len(paths), r[i], d))

    def op_mut(self, me, op):
        if self.running:
            return
        me.nofault += 1
        link, lst, g = self.links[op["l"]], self.lists[op["o"]], self.grids[op["g"]]

        def fn():
            w = op["what"]
            if w == "join":
                lst.append(link)
            elif w == "leave" and link in lst:
                lst.remove(link)
            elif w == "move":
                link.metadata["site_a_longitude"] += op["by"]
            elif w == "meta":
                link.metadata = dict(link.metadata, site_b_latitude=link.metadata["site_b_latitude"] + op["by"])
            elif w == "order":
                np.random.RandomState(op["seed"]).shuffle(lst)
            elif w == "grid":
                g[0][...] = g[0] + op["by"]
        self.user_changes_args(fn)
        me.nofault -= 1
