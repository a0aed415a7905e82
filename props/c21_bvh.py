"""C21: bounding-volume hierarchies against a scan of all objects, built again and again, queried by several tasks."""
from fractions import Fraction as F

from props._util import *

PROP = "C21"
LEVEL = "exploration"
CONFIGS = ["plain", "concurrent", "plain", "concurrent", "interrupted"]
PLAN = {"quick": {"seeds": 3500, "seconds": 45}, "thorough": {"seeds": 120000, "seconds": 360}}
STATES = "distinct (objects, kind, leaf size, query, hits) tuples and interleavings"
REAL = ["mmcore.geom.bvh", "mmcore.numeric._aabb", "mmcore.numeric.algorithms.moller"]
STUB = []
ASSUMPTIONS = ["hits closer to an edge, an end or a boundary than the tolerance may go either way"]

EPS = 1e-3


def gen_objects(rng):
    kind = rng.weighted([("any", 4), ("axis", 3), ("flat", 2), ("grid", 2), ("float", 3), ("same", 1)])
    n = rng.choice([1, 2, 3, 8, 20, 45])
    out = []
    z = rng.randrange(-3, 4)
    for _ in range(n):
        if kind == "float":
            p = [[rng.uniform(-6, 6) for _ in range(3)] for _ in range(3)]
        elif kind == "same" and out:
            p = [list(x) for x in out[-1]]
        else:
            p = [[float(rng.randrange(-5, 6)) for _ in range(3)] for _ in range(3)]
        a = rng.randrange(3)
        if kind == "axis":
            for x in p:
                x[a] = p[0][a]
        if kind in ("flat", "grid"):
            for x in p:
                x[2] = float(z)
        u, v = [p[1][i] - p[0][i] for i in range(3)], [p[2][i] - p[0][i] for i in range(3)]
        c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        if sum(x * x for x in c) < 0.25:
            continue
        out.append(p)
    return kind, out or [[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]]


QUERIES = ["box", "point", "pair", "leafs", "segment", "one", "ray", "recursive"]


def gen_query(rng, sets=(), q=None):
    q = q or rng.choice(QUERIES)
    pts = [[rng.choice([float(rng.randrange(-5, 6)), rng.uniform(-7, 7)]) for _ in range(3)] for _ in range(2)]
    if rng.chance(0.25):
        a = rng.randrange(3)
        pts[1][(a + 1) % 3] = pts[0][(a + 1) % 3]
        pts[1][a] = pts[0][a]
    tris = [t for s in sets for t in s]
    if tris and rng.chance(0.5):  # aimed at one of the triangles
        t = rng.choice(tris)
        m = [sum(p[i] for p in t) / 3 for i in range(3)]
        d = [rng.uniform(-1, 1) for _ in range(3)]
        r = rng.choice([0.5, 2.0, 6.0])
        pts = [[x + r * y for x, y in zip(m, d)], [x - r * rng.choice([0.6, 1.0]) * y for x, y in zip(m, d)]]
    if pts[0] == pts[1]:
        pts[1][0] += 1.0
    return [q, pts[0], pts[1], rng.randrange(4)]


def generate(rng, config):
    ops = [["build", rng.choice([1, 1, 2, 4])]]
    sets = [gen_objects(rng) for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.choice([2, 6, 12])):
        k = rng.weighted([("query", 8), ("build", 2), ("boxop", 3)])
        if k == "build":
            ops.append(["build", rng.choice([1, 1, 2, 4])])
        elif k == "boxop":
            ops.append(["boxop", rng.choice(["split", "expand", "merge", "split4", "split8", "corners", "evaluate", "meet"]), rng.randrange(64),
                        rng.randrange(64), rng.randrange(3), rng.choice([0.5, 0.25, 0.8, 0.1])])
        else:
            ops.append(["query"] + gen_query(rng, [s[1] for s in sets]))
    case = {"env": base_env(rng), "sets": [s[1] for s in sets], "kind": sets[0][0], "ops": ops}
    if config != "plain":
        one = rng.choice(QUERIES) if rng.chance(0.7) else None  # mostly the same kind of search at the same time
        case["tasks"] = [[gen_query(rng, case["sets"], one) for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([2, 3]))]
        case["sched"] = pick_sched(rng)
    if config == "interrupted":
        case["faults"] = [{"task": rng.randrange(len(case["tasks"])), "at": rng.randrange(1, 250), "kind": rng.choice(["interrupt", "nomem"])}]
    return case


def hit(tri, s, e):
    """(how far inside the triangle, place along the segment) or None when parallel."""
    tri, s, e = [[F(x) for x in p] for p in tri], [F(x) for x in s], [F(x) for x in e]
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    d, e1, e2 = sub(e, s), sub(tri[1], tri[0]), sub(tri[2], tri[0])
    h = cross(d, e2)
    a = dot(e1, h)
    if a * a < F(1, 10**4) * dot(d, d):
        return None
    sv = sub(s, tri[0])
    q = cross(sv, e1)
    u, v, t = dot(sv, h) / a, dot(d, q) / a, dot(e2, q) / a
    return float(min(u, v, 1 - u - v)), float(t), [float(x + t * y) for x, y in zip(s, d)]


def flat(tri, s, e):
    """Nearly parallel: the answer may go either way."""
    return hit(tri, s, e) is None


def seg_box(lo, hi, s, e, grow):
    """Does the segment meet the box grown by `grow` on every side?"""
    t0, t1 = 0.0, 1.0
    for i in range(3):
        d = e[i] - s[i]
        a, b = lo[i] - grow, hi[i] + grow
        if abs(d) < 1e-12:
            if s[i] < a or s[i] > b:
                return False
            continue
        x, y = sorted(((a - s[i]) / d, (b - s[i]) / d))
        t0, t1 = max(t0, x), min(t1, y)
        if t0 > t1:
            return False
    return True


class World:
    def __init__(self, case, ctx):
        from mmcore.geom import bvh

        self.ctx, self.bvh = ctx, bvh
        self.tris = [[np.array(p, dtype=float) for p in s] for s in case["sets"]]
        self.objs = [[bvh.Triangle(p) for p in s] for s in self.tris]
        self.lists = [list(o) for o in self.objs]
        self.plain = case["sets"]
        self.boxes = [[(np.min(p, axis=0).tolist(), np.max(p, axis=0).tolist()) for p in s] for s in self.tris]
        self.trees, self.leaf = None, 1

    def build(self, leaf):
        self.leaf = leaf
        self.trees = []
        for i, lst in enumerate(self.lists):
            before = list(lst)
            self.trees.append(self.bvh.build_bvh(lst, leaf))
            self.ctx.check(len(lst) == len(before) and all(a is b for a, b in zip(lst, before)), "bvh:callers-list-reordered", f"set {i}")

    def flatten(self, found):
        out = []
        for o in found:
            out += list(o.objects) if hasattr(o, "objects") else [o]
        return out

    def index(self, k, found, where):
        ids = {id(o): j for j, o in enumerate(self.objs[k])}
        out = [ids.get(id(o)) for o in self.flatten(found)]
        self.ctx.check(None not in out, "bvh:foreign-object", where)
        self.ctx.check(len(set(out)) == len(out), "bvh:object-twice", f"{where}: {out}")
        return set(out)

    def query(self, q, ctx):
        name, a, b, pick = q
        k = pick % len(self.trees)
        tree, boxes = self.trees[k], self.boxes[k]
        where = f"{name} {a} {b} over {len(boxes)} objects, {self.leaf} per leaf"
        B = self.bvh
        n = 0
        if name in ("box", "point"):
            lo, hi = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
            if name == "point":
                lo = hi = a
                found = B.contains_point(tree, np.array(a))
            else:
                found = []
                B.traverse_bvh(tree, B.BoundingBox(lo, hi), found)
            want = {i for i, (l, h) in enumerate(boxes) if all(x <= v and y >= u for x, y, u, v in zip(l, h, lo, hi))}
            got = self.index(k, found, where)
            ctx.check(want <= got, f"bvh:{name}-missed", lambda: f"{where}: {sorted(got)}, expected {sorted(want)}")
            if self.leaf == 1:
                ctx.check(got == want, f"bvh:{name}-extra", lambda: f"{where}: {sorted(got)}, expected {sorted(want)}")
            n = len(want)
        elif name == "pair":
            o = (k + 1) % len(self.trees)
            pairs = B.intersect_bvh_objects(tree, self.trees[o])
            got = set()
            for x, y in pairs:
                for i in self.index(k, [x.object], where):
                    for j in self.index(o, [y.object], where):
                        ctx.check((i, j) not in got, "bvh:pair-twice", where)
                        got.add((i, j))
            want = {(i, j) for i, (l, h) in enumerate(boxes) for j, (l2, h2) in enumerate(self.boxes[o])
                    if all(x <= v and y >= u for x, y, u, v in zip(l, h, l2, h2))}
            ctx.check(want <= got and (self.leaf > 1 or got == want), "bvh:pairs", lambda: f"{where}: {len(got)} pairs, expected {len(want)}")
            n = len(want)
        elif name == "leafs":
            for f in (B.traverse_leafs, B.traverse_all_objects_in_node):
                found = []
                f(tree, found)
                ctx.check(self.index(k, found, where) == set(range(len(boxes))), "bvh:leafs", where)
            n = len(boxes)
        elif name in ("segment", "recursive"):
            s, e = np.array(a), np.array(b)
            if name == "segment":
                found = [o for o, _ in B.bvh_segment_intersection(tree, np.array([s, e]))]
            else:
                found = [node.object for node, _ in B.bvh_segment_intersection_recursive(tree, B.Segment(s, e))]
            got = self.index(k, found, where)
            sure = {i for i, (l, h) in enumerate(boxes) if seg_box(l, h, a, b, -EPS if all(y - x > 3 * EPS for x, y in zip(l, h)) else 0.0)
                    and self.solid(boxes[i], a, b)}
            may = {i for i, (l, h) in enumerate(boxes) if seg_box(l, h, a, b, EPS)}
            ctx.check(sure <= got, f"bvh:{name}-missed", lambda: f"{where}: {sorted(got)}, at least {sorted(sure)}")
            if self.leaf == 1:
                ctx.check(got <= may, f"bvh:{name}-extra", lambda: f"{where}: {sorted(got)}, at most {sorted(may)}")
            n = len(sure)
        else:
            hs = [hit(p, a, b) for p in self.plain[k]]
            ray = name == "ray"
            top = 1e9 if ray else 1.0
            sure = [i for i, h in enumerate(hs) if h and h[0] > EPS and EPS < h[1] < top - EPS]
            may = [i for i, h in enumerate(hs) if h is None or h[0] > -EPS and -EPS < h[1] < top + EPS]
            if ray:
                if self.leaf > 1:
                    return
                r = B.Ray(np.array(a), np.array(b) - np.array(a))
                out = B.mesh_bvh_ray_intersection(tree, r)
                got = self.index(k, [o[1] for o in out], where)
                ctx.check(set(sure) <= got, "bvh:ray-missed", lambda: f"{where}: {sorted(got)}, at least {sure}")
                ctx.check(got <= set(may), "bvh:ray-extra", lambda: f"{where}: {sorted(got)}, at most {may}")
                d = np.array(b) - np.array(a)
                place = []
                for pt, o, _ in out:
                    i = next(j for j, x in enumerate(self.objs[k]) if x is o)
                    place.append(float(np.dot(np.array(pt) - np.array(a), d) / np.dot(d, d)))
                    if hs[i]:
                        ctx.check(np.allclose(pt, hs[i][2], atol=1e-5 * (1 + abs(hs[i][1]))), "bvh:ray-point", lambda: f"{where}: {pt}, expected {hs[i][2]}")
                ctx.check(all(x <= y + 1e-5 for x, y in zip(place, place[1:])), "bvh:ray-order", lambda: f"{where}: {place}")
            else:
                ok, pt, o = B.bvh_triangle_segment_intersection_one(tree, np.array([a, b]))
                ctx.check(ok or not sure, "bvh:first-missed", lambda: f"{where}: nothing, though it passes through {sure}")
                ctx.check(not ok or may, "bvh:first-extra", lambda: f"{where}: {pt}")
                res = B.mesh_bvh_segment_intersection_one(tree, np.array([a, b]))
                ctx.check((res is not None) == bool(ok), "bvh:first-inconsistent", where)
                if ok:
                    i = self.index(k, [o], where)
                    ctx.check(i & set(may), "bvh:first-object", where)
                    pts = [hs[j][2] for j in i if hs[j]]
                    ctx.check(any(np.allclose(pt, p, atol=1e-5) for p in pts) or any(hs[j] is None for j in i), "bvh:first-point", lambda: f"{where}: {pt}, expected one of {pts}")
            n = len(sure)
        ctx.event(name, k, n)
        ctx.state(len(boxes), self.leaf, name, n)

    @staticmethod
    def solid(box, a, b):
        """A segment that only grazes a box may go either way: it must run inside for a while, or cross a thin box."""
        l, h = box
        thin = [i for i in range(3) if h[i] - l[i] <= 3 * EPS]
        t0, t1 = 0.0, 1.0
        for i in range(3):
            d = b[i] - a[i]
            if abs(d) < 1e-9:
                m = EPS if i not in thin else 0.0
                if not l[i] + m <= a[i] <= h[i] - m:
                    return False
                continue
            m = EPS if i not in thin else 0.0
            x, y = sorted(((l[i] + m - a[i]) / d, (h[i] - m - a[i]) / d))
            if i in thin and not (EPS < x < 1 - EPS):
                return False
            t0, t1 = max(t0, x), min(t1, y)
        return t0 <= t1

    def boxop(self, op, ctx):
        _, name, i, j, axis, par = op
        B = self.bvh
        flat_boxes = [b for s in self.boxes for b in s]
        (l, h), (l2, h2) = flat_boxes[i % len(flat_boxes)], flat_boxes[j % len(flat_boxes)]
        box, other = B.BoundingBox(l, h), B.BoundingBox(l2, h2)
        mid = lambda x, y, p: x + (y - x) * p
        if name == "split":
            got = box.split(axis, par)
            m = mid(l[axis], h[axis], par)
            want = [(l, [m if q == axis else v for q, v in enumerate(h)]), ([m if q == axis else v for q, v in enumerate(l)], h)]
        elif name == "split4":
            got, want = box.split4(axis, (axis + 1) % 3), None
        elif name == "split8":
            got, want = box.split8(), None
        elif name == "expand":
            box.expand(other)
            got, want = [box], [([min(x, y) for x, y in zip(l, l2)], [max(x, y) for x, y in zip(h, h2)])]
        elif name == "merge":
            got, want = [box.merge(other), box | other], [([min(x, y) for x, y in zip(l, l2)], [max(x, y) for x, y in zip(h, h2)])] * 2
        elif name == "meet":
            lo, hi = [max(x, y) for x, y in zip(l, l2)], [min(x, y) for x, y in zip(h, h2)]
            r = box & other
            ctx.check((r is not None) == all(x <= y for x, y in zip(lo, hi)), "box:intersection", f"{box} {other}: {r}")
            ctx.check(bool(box.intersect(other)) == (r is not None), "box:intersect", f"{box} {other}")
            got, want = ([r], [(lo, hi)]) if r is not None else ([], [])
        elif name == "corners":
            c = sorted(map(tuple, box.get_corners().tolist()))
            ctx.check(c == sorted((x, y, z) for x in (l[0], h[0]) for y in (l[1], h[1]) for z in (l[2], h[2])), "box:corners", f"{c}")
            return
        else:
            got = box.evaluate(np.array([par, 1 - par, par]))
            ctx.check(np.allclose(got, [mid(l[0], h[0], par), mid(l[1], h[1], 1 - par), mid(l[2], h[2], par)]), "box:evaluate", f"{box}: {got}")
            return
        if want is None:  # the parts cover the box and nothing else
            want = [(g.min_point.tolist(), g.max_point.tolist()) for g in got]
            n = 4 if name == "split4" else 8
            vol = lambda l, h: float(np.prod(np.array(h) - np.array(l)))
            ctx.check(len(got) == n and abs(sum(vol(*w) for w in want) - vol(l, h)) <= 1e-9 * (1 + vol(l, h)), "box:split-parts", f"{box}: {got}")
            ctx.check(all(x >= u - 1e-12 for w in want for x, u in zip(w[0], l)) and all(x <= u + 1e-12 for w in want for x, u in zip(w[1], h)),
                      "box:split-outside", f"{box}: {got}")
        for g, (lo, hi) in zip(got, want):
            ctx.check(np.allclose(g.min_point, lo) and np.allclose(g.max_point, hi), f"box:{name}", lambda: f"{box} {other}: {g}, expected {lo} {hi}")
            ctx.check(np.allclose(np.asarray(g), [lo, hi]), f"box:{name}-array", lambda: f"{g} as an array: {np.asarray(g)}")
            ctx.check(np.allclose(g.dims, np.array(hi) - np.array(lo)) and np.allclose(g.center, (np.array(hi) + np.array(lo)) / 2)
                      and np.allclose(g.centroid(), g.center) and np.isclose(g.volume(), float(np.prod(np.array(hi) - np.array(lo)))),
                      f"box:{name}-derived", lambda: f"{g}: dims {g.dims}, center {g.center}")
            for b in flat_boxes[:6]:
                w = all(x <= v and y >= u for x, y, u, v in zip(lo, hi, b[0], b[1]))
                ctx.check(bool(g.intersect(B.BoundingBox(*b))) == w, f"box:{name}-then-intersect", lambda: f"{g} and {b}: expected {w}")
        ctx.event("boxop", name)

    def unchanged(self):
        for s, t in zip(self.plain, self.tris):
            for p, q in zip(s, t):
                self.ctx.check(q.tolist() == p, "bvh:input-changed", f"{q.tolist()}, was {p}")


def execute(case, ctx):
    w = World(case, ctx)
    for op in case["ops"]:
        if op[0] == "build":
            w.build(op[1])
        elif op[0] == "boxop":
            w.boxop(op, ctx)
        elif w.trees:
            w.query(op[1:], ctx)
    if "tasks" in case and w.trees:
        def work(i):
            for q in case["tasks"][i]:
                w.query(q, ctx)
            return True

        faults = [f for f in case.get("faults", []) if f["task"] < len(case["tasks"])]
        tasks = run_tasks(case, ctx, [lambda i=i: work(i) for i in range(len(case["tasks"]))], faults)
        for i, t in enumerate(tasks):
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None and not (isinstance(t.error, (KeyboardInterrupt, MemoryError)) and any(f["task"] == i for f in faults)):
                ctx.check(False, f"bvh:raises-{type(t.error).__name__}", repr(t.error))
        for qs in case["tasks"]:  # afterwards the tree still answers
            for q in qs:
                w.query(q, ctx)
    w.unchanged()
