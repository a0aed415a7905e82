"""C16: the box index (ds.tree.rtree) against a linear scan."""
from props._util import *

PROP = "C16"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults"]
PLAN = {"quick": {"seeds": 3000, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 420}}
STATES = "distinct (stored boxes, depth, answers of the last query) tuples"
REAL = ["mmcore.ds.tree.rtree"]
STUB = []
ASSUMPTIONS = ["boxes are valid (min <= max)", "max_children >= 2*min_children-1 >= 3"]


def generate(rng, config):
    d3 = rng.chance(0.6)
    span = rng.choice([4, 10, 100])
    size = rng.choice([0, 2, 10])
    n = rng.choice([4, 12, 30, 80])
    mx = rng.choice([4, 4, 3, 5, 8])
    mn = rng.choice([m for m in (1, 2, 3) if 2 * m - 1 <= mx])
    ops = []

    def box():
        lo = [rng.randrange(-span, span) for _ in range(3)]
        return lo + [v + rng.randrange(size + 1) for v in lo]

    walk = 0
    for _ in range(n):
        if rng.chance(0.7):
            b = box()
            if rng.chance(0.2):  # drifting data: every insertion enlarges the tree
                walk += rng.randrange(5)
                b = [v + walk for v in b]
            ops.append(["ins", b])
        else:
            ops.append(["query", box()])
    case = {"env": base_env(rng), "d3": d3, "max": mx, "min": mn, "ops": ops}
    if config == "faults":
        for _ in range(rng.randrange(1, 4)):
            o = rng.choice(ops)
            if o[0] == "ins" and len(o) == 2:
                o.append({"area": rng.randrange(1, 8)})
    return case


def execute(case, ctx):
    from mmcore.ds.tree import rtree
    from sim.sched import Injected

    armed = [None]

    base = rtree.Box if case["d3"] else rtree.Rectangle

    class Tagged(base):
        """A user's box: computing its union may fail."""

        def _tick(self):
            if armed[0] is not None:
                armed[0] -= 1
                if armed[0] <= 0:
                    armed[0] = None
                    raise Injected("box")

        def union(self, other):
            self._tick()
            return base.union(self, other)

    def make(b, tag=None):
        o = Tagged(*b) if case["d3"] else Tagged(b[0], b[1], b[3], b[4])
        o.tag = tag
        o.orig = list(b)
        return o

    def sides(o):
        return [o.minx, o.miny, o.maxx, o.maxy] + ([o.minz, o.maxz] if case["d3"] else [])

    def hits(a, b):
        axes = (0, 1, 2) if case["d3"] else (0, 1)
        return all(a[i] <= b[i + 3] and b[i] <= a[i + 3] for i in axes)

    tree = rtree.RStarTree(max_children=case["max"], min_children=case["min"])
    stored = []

    def query(b, where):
        got = tree.search(make(b))
        tags = [getattr(o, "tag", "not a stored box") for o in got]
        exp = [o.tag for o in stored if hits(o.orig, b)]
        ctx.check(len(tags) == len(set(tags)), "rtree:duplicates", lambda: f"{where}: {tags}")
        ctx.check(sorted(map(str, tags)) == sorted(map(str, exp)), "rtree:search",
                  lambda: f"{where}: query {b} answered {tags}, stored and touching {exp}")
        return len(exp)

    def depth(node, d=0):
        kids = [c for c in node.children if c.children]
        return max([depth(c, d + 1) for c in kids], default=d)

    for i, op in enumerate(case["ops"]):
        if op[0] == "ins":
            o = make(op[1], i)
            armed[0] = op[2]["area"] if len(op) > 2 else None
            try:
                tree.insert(o)
                stored.append(o)
            except Injected:
                ctx.fault("box_raises")
                # the aborted insertion may or may not have stored its own box; it must not lose another one
                everything = [-10**6] * 3 + [10**6] * 3
                armed[0] = None
                got = [getattr(x, "tag", None) for x in tree.search(make(everything))]
                if i in got:
                    stored.append(o)
            armed[0] = None
            ctx.check(sides(o) == sides(make(op[1])), "rtree:caller-box", "insertion changed the caller's box")
            if i % 7 == 0 or i == len(case["ops"]) - 1:
                for s in stored:
                    query(s.orig, "own box")
        n = query(op[1], op[0])
        ctx.event(op[0], op[1], len(stored), n)
        ctx.state(len(stored), depth(tree.root), n)
    query([-10**6] * 3 + [10**6] * 3, "everything")
