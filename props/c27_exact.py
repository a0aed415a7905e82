"""C27: intervals, polynomial patches, octrees, groupings, sorting and basis functions answer exactly what arithmetic says."""
import math
from fractions import Fraction

from props import _asks
from props._asks import plan, run
from props._util import *

PROP = "C27"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 6000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 200000, "seconds": 400, "timeout": 60}}
STATES = "distinct (question, shape of the answer, outcome) tuples"
REAL = ["mmcore.numeric.interval", "mmcore.numeric.monomial", "mmcore.geom.implicit.tree.octree", "mmcore.ds.union_find",
        "mmcore.numeric.algorithms.quicksort", "mmcore.numeric.algorithms.tnb", "mmcore.numeric.algorithms.surface_area",
        "mmcore.geom.curves.bspline_utils", "mmcore.geom.curves.curve_utils", "mmcore.geom.features", "mmcore.geom.utils",
        "mmcore.numeric.binom", "mmcore.geom.surfaces.ellipsoid"]
STUB = ["numpy's array makers: one of them refuses memory", "surfaces and curves handed in as functions written here"]
ASSUMPTIONS = ["intervals have their ends in order and are not divided by one that ends in zero; common parts are asked of overlapping ones",
               "arrays to sort hold numbers and are not empty", "areas are of surfaces whose derivatives are smooth"]
KINDS = ["interval", "interval", "interval", "patch", "patch", "rational", "product", "octree", "octree", "node", "group", "union", "sort", "unique",
         "basis", "basis", "spline", "surface", "area", "frame", "order", "bezier", "circle", "table"]


# ---------------------------------------------------------------- the questions

def num(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -3.0, rng.randrange(-16, 17) / 4, round(rng.uniform(-5, 5), 3)])


def grid(rng, n, m, d):
    return [[[num(rng) for _ in range(d)] for _ in range(m)] for _ in range(n)]


def knots(rng, p, n):
    inner = n - p - 1
    u, out = 0.0, [0.0] * (p + 1)
    while inner > 0:
        u += rng.choice([1.0, 1.0, 0.5, 2.0])
        k = min(inner, rng.choice([1, 1, 1, max(p - 1, 1)]))
        out += [u] * k
        inner -= k
    return out + [u + rng.choice([1.0, 0.5])] * (p + 1)


def weighted(rng, n):
    return [[num(rng) for _ in range(3)] + [rng.choice([1.0, 1.0, 0.5, 2.0, 3.0])] for _ in range(n)]


def gen(rng, k):
    if k == "interval":
        pool = []
        for _ in range(3):
            a, b = sorted([num(rng), num(rng)])
            pool.append([a, b])
        ops = [[rng.choice(["add", "add", "sub", "sub", "mul", "mul", "div", "radd", "adds", "subs", "muls", "divs", "iadd", "isub", "imul", "idiv", "pow", "pow",
                            "spow", "inv", "and", "or", "merge", "cmp", "cmp", "cmps", "cmps", "in", "ins", "sub2", "eval", "tuple", "round", "ends", "mid", "array"]),
                rng.randrange(8), rng.randrange(8), num(rng), rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3])] for _ in range(rng.choice([3, 6, 10]))]
        return {"pool": pool, "ops": ops}
    if k in ("patch", "product"):
        n, m = rng.randrange(1, 5), rng.randrange(1, 5)
        return {"c": grid(rng, n, m, 3), "d": grid(rng, rng.randrange(1, 4), rng.randrange(1, 4), 3), "s": rng.chance(0.3),
                "uv": [[round(rng.uniform(-0.5, 1.5), 3), round(rng.uniform(-0.5, 1.5), 3)] for _ in range(4)]}
    if k in ("rational", "bezier"):
        n, m = rng.randrange(2, 5), rng.randrange(2, 5)
        return {"c": grid(rng, n, m, 3), "w": [[rng.choice([1.0, 0.5, 2.0, 3.0]) for _ in range(m)] for _ in range(n)],
                "uv": [[round(rng.random(), 3), round(rng.random(), 3)] for _ in range(4)]}
    if k in ("octree", "node"):
        lo = [num(rng) for _ in range(3)]
        dims = [rng.choice([0.25, 0.5, 1.0, 1.5, 2.0, 0.3, round(rng.uniform(0.1, 2), 6)]) for _ in range(3)]
        hi = [x + d for x, d in zip(lo, dims)]
        t = [rng.choice([0.3, 0.5, 0.7, 1.0, 3.0]) for _ in range(3)]
        if rng.chance(0.5):
            t = [t[0]] * 3
        pts = [[round(rng.uniform(a - 0.2 * (b - a), b + 0.2 * (b - a)), 4) for a, b in zip(lo, hi)] for _ in range(5)] + [list(lo), list(hi)]
        boxes = []
        for _ in range(4):
            a = [rng.uniform(x - d, x + d) for x, d in zip(lo, dims)]
            boxes.append([a, [x + rng.choice([0.1, 0.5, 2.0]) * d for x, d in zip(a, dims)]])
        boxes.append([list(lo), list(hi)])
        return {"lo": lo, "hi": hi, "t": t, "p": pts, "b": boxes, "grow": rng.chance(0.5)}
    if k == "group":
        top = rng.choice([4, 8, 16, 40])
        return {"t": [[rng.randrange(top) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([0, 1, 3, 6, 12]))]}
    if k == "union":
        n = rng.choice([1, 3, 8, 16])
        return {"n": n, "ops": [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.choice([0, 3, 8, 16]))]}
    if k in ("sort", "unique"):
        top = rng.choice([2, 5, 100])
        a = [rng.choice([rng.randrange(top) / 2, -rng.randrange(top) / 4, num(rng)]) for _ in range(rng.choice([1, 2, 3, 10, 40, 120]))]
        if rng.chance(0.2):
            a = sorted(a, reverse=rng.chance(0.5))
        return {"a": a, "r": rng.chance(0.5)}
    if k in ("basis", "spline"):
        p = rng.randrange(1, 5)
        n = p + 1 + rng.randrange(0, 5)
        U = knots(rng, p, n)
        us = [U[0], U[-1], rng.choice(U)] + [round(rng.uniform(U[0], U[-1]), 4) for _ in range(4)]
        return {"p": p, "U": U, "P": weighted(rng, n), "u": us, "nd": rng.randrange(0, 4), "m": rng.randrange(2)}
    if k == "surface":
        p, q = rng.randrange(1, 4), rng.randrange(1, 4)
        n, m = p + 1 + rng.randrange(0, 3), q + 1 + rng.randrange(0, 3)
        U, V = knots(rng, p, n), knots(rng, q, m)
        return {"p": p, "q": q, "U": U, "V": V, "P": [weighted(rng, m) for _ in range(n)], "m": rng.randrange(2), "i": rng.chance(0.3),
                "uv": [[round(rng.uniform(U[0], U[-1]), 4), round(rng.uniform(V[0], V[-1]), 4)] for _ in range(4)]}
    if k == "area":
        return {"f": rng.choice(["plane", "cylinder", "sphere"]), "b": [sorted([round(rng.uniform(0.2, 1.4), 3), round(rng.uniform(1.5, 2.6), 3)]),
                                                                       sorted([round(rng.uniform(-1, 0.4), 3), round(rng.uniform(0.5, 3), 3)])],
                "x": [num(rng) for _ in range(6)], "r": rng.choice([0.5, 1.0, 2.0]), "cls": rng.chance(0.5)}
    if k == "frame":
        return {"c": [[num(rng) for _ in range(3)] for _ in range(4)], "t": round(rng.uniform(-1, 1), 3)}
    if k == "order":
        n = rng.choice([3, 4, 5, 8])
        return {"p": [[rng.randrange(-8, 9) / 2, rng.randrange(-8, 9) / 2] for _ in range(n)], "close": rng.chance(0.8)}
    if k == "table":
        return {"n": [[i, rng.randrange(0, i + 2)] for i in (rng.randrange(31), rng.randrange(31), rng.choice([30, 31, 32, 45, 60]))],
                "uv": [[round(rng.uniform(-4, 4), 3), round(rng.uniform(-4, 4), 3)] for _ in range(3)], "x": [num(rng) for _ in range(6)]}
    if k == "circle":
        return {"r": rng.choice([0.5, 1.0, 2.0]), "q": rng.choice([1.0, 3.0]), "o": [num(rng) for _ in range(3)], "t": [round(rng.uniform(-7, 7), 3) for _ in range(3)], "x": num(rng)}
    raise KeyError(k)


def generate(rng, config):
    case = plan(rng, config, KINDS, gen)
    case["env"] = base_env(rng)
    return case


# ---------------------------------------------------------------- asking

def setup():
    import mmcore.geom.curves  # noqa: F401
    import mmcore.geom.curves.bspline_utils  # noqa: F401
    import mmcore.geom.curves.curve_utils  # noqa: F401
    import mmcore.ds.union_find  # noqa: F401
    import mmcore.geom.features  # noqa: F401
    import mmcore.geom.implicit.tree.octree  # noqa: F401
    import mmcore.geom.nurbs  # noqa: F401
    import mmcore.geom.surfaces.ellipsoid  # noqa: F401
    import mmcore.numeric.binom  # noqa: F401
    import mmcore.geom.utils  # noqa: F401
    import mmcore.numeric.algorithms.quicksort  # noqa: F401
    import mmcore.numeric.algorithms.surface_area  # noqa: F401
    import mmcore.numeric.algorithms.tnb  # noqa: F401
    import mmcore.numeric.intersection.ssx  # noqa: F401
    import mmcore.numeric.gauss_map  # noqa: F401
    import mmcore.numeric.interval  # noqa: F401
    import mmcore.numeric.monomial  # noqa: F401


def read_node(x):
    if type(x).__name__ == "OCNode":
        return ["node", list(map(float, x.min)), list(map(float, x.max)), x.lamp, [read_node(c) for c in x.child]]
    if type(x).__name__ == "Interval":
        return ["interval", x.low, x.upp]
    return None


_asks.READERS.append(read_node)


def chain(a):
    from mmcore.numeric.interval import Interval

    pool = [Interval(*x) for x in a["pool"]]
    log = []
    for f, i, j, s, e in a["ops"]:
        x, y = pool[i % len(pool)], pool[j % len(pool)]
        A, B = (x.low, x.upp), (y.low, y.upp)
        if f in ("and",) and (A[1] < B[0] or B[1] < A[0]):
            continue
        if f == "inv" and 0 in A:
            try:
                ~x
            except ZeroDivisionError:
                continue
            raise AssertionError(f"one over {A} was given")
        if (f in ("div", "idiv") and 0 in B) or (f == "inv" and 0 in A) or (f == "divs" and s == 0) or (e < 0 and f in ("pow", "spow") and A[0] <= 0 <= A[1]):
            continue
        if not all(map(math.isfinite, A + B)) or max(map(abs, A + B)) > 1e6 or f == "idiv" and x is y:
            continue
        if f in ("pow", "spow") and e < 0 and min(abs(A[0]), abs(A[1])) < 1e-3:
            continue
        if f in ("iadd", "isub", "imul", "idiv"):
            z = x
            if f == "iadd":
                x += y
            elif f == "isub":
                x -= y
            elif f == "imul":
                x *= y
            else:
                x /= y
            log.append([f, A, B, s, e, (x.low, x.upp), x is z, (y.low, y.upp) if y is not z else B])
            continue
        r = None
        new = None
        if f == "add":
            new = x + y
        elif f == "sub":
            new = x - y
        elif f == "mul":
            new = x * y
        elif f == "div":
            new = x / y
        elif f == "radd":
            new = s + x
        elif f == "adds":
            new = x + s
        elif f == "subs":
            new = x - s
        elif f == "muls":
            new = x * s
        elif f == "divs":
            new = x / s
        elif f == "pow":
            new = x ** e
        elif f == "spow":
            new = Interval.pow(x, e)
        elif f == "inv":
            new = ~x
        elif f == "and":
            new = x & y
        elif f == "or":
            new = x | y
        elif f == "merge":
            new = x.merge(y)
        elif f == "cmp":
            r = [int(x.compare(y)), x < y, x <= y, x > y, x >= y]
        elif f == "cmps":
            r = [int(x.compare(s)), x < s, x <= s, x > s, x >= s]
        elif f == "in":
            r = y in x
        elif f == "ins":
            r = s in x
        elif f == "sub2":
            r = [(z.low, z.upp) for z in x.subdivide(abs(e) % 4)]
        elif f == "eval":
            r = x.evaluate(s)
        elif f == "tuple":
            z = Interval.from_tuple((x.low, x.upp))
            w = Interval((x.low, x.upp))
            v = Interval(s)
            r = [z.low, z.upp, w.low, w.upp, v.low, v.upp]
        elif f == "round":
            r = [list(x.to_tuple()), list(x)]
        elif f == "ends":
            p, q = x.lower(), x.upper()
            r = [p.low, p.upp, q.low, q.upp]
        elif f == "mid":
            r = float(x)
        elif f == "array":
            r = x.__array__().tolist()
        if new is not None:
            log.append([f, A, B, s, e, (new.low, new.upp), new is not x and new is not y, None])
            if len(pool) < 8:
                pool.append(new)
        else:
            log.append([f, A, B, s, e, r, True, None])
        log[-1][7] = ((x.low, x.upp), (y.low, y.upp))
    return log


def surface_of(f, x, r):
    if f == "plane":
        A, B = np.array(x[:3]) + [2, 0, 0], np.array(x[3:]) + [0, 2.5, 0]
        du = lambda u, v: A
        dv = lambda u, v: B
        at = lambda u, v: A * u + B * v
    elif f == "cylinder":
        at = lambda u, v: np.array([r * math.cos(u), r * math.sin(u), v])
        du = lambda u, v: np.array([-r * math.sin(u), r * math.cos(u), 0.0])
        dv = lambda u, v: np.array([0.0, 0.0, 1.0])
    else:
        at = lambda u, v: r * np.array([math.sin(u) * math.cos(v), math.sin(u) * math.sin(v), math.cos(u)])
        du = lambda u, v: r * np.array([math.cos(u) * math.cos(v), math.cos(u) * math.sin(v), -math.sin(u)])
        dv = lambda u, v: r * np.array([-math.sin(u) * math.sin(v), math.sin(u) * math.cos(v), 0.0])
    return at, du, dv


class Sheet:
    def __init__(self, a, hook):
        at, du, dv = surface_of(a["f"], a["x"], a["r"])
        self.at, self.du, self.dv = hook(at), du, dv
        self.b = a["b"]

    def evaluate(self, uv):
        return self.at(uv[0], uv[1])

    def derivative_u(self, uv):
        return self.at(0.0, 0.0) * 0 + self.du(uv[0], uv[1])

    def derivative_v(self, uv):
        return self.dv(uv[0], uv[1])

    def interval(self):
        return self.b


def make(k, a, hook):
    from mmcore.ds import union_find
    from mmcore.geom import features, utils
    from mmcore.geom.curves import bspline_utils, curve_utils
    from mmcore.geom.implicit.tree import octree
    from mmcore.geom.nurbs import NURBSSurface
    from mmcore.numeric import gauss_map, monomial
    from mmcore.numeric.algorithms import quicksort, surface_area, tnb

    if k == "interval":
        return {}, lambda: chain(a)
    if k == "patch":
        c = np.array(a["c"], float)
        m = "scipy" if a["s"] else "mmcore"

        def patch():
            P = monomial.Monomial2D(c)
            b = P.to_bernstein_basis()
            back = monomial.bezier_to_monomial(b, bmethod=m)
            again = monomial.monomial_to_bezier(c, bmethod=m)
            out = [P.evaluate(uv) for uv in a["uv"]], [monomial.evaluate_bezier_patch(b, *uv) for uv in a["uv"]], np.array(back), np.array(again), np.array(b)
            back *= 7
            b += 1
            q = monomial.bpmat(c.shape[0] - 1, m)
            got = np.array(q, float)
            q[:] = 5
            return out + (got, np.array(monomial.bpmat(c.shape[0] - 1, m), float))
        return {"c": c}, patch
    if k == "product":
        c, d = np.array(a["c"], float), np.array(a["d"], float)

        def product():
            P, Q = monomial.Monomial2D(c), monomial.Monomial2D(d)
            x = P.cross(Q)
            ds = P.monomial_derivatives() if min(c.shape[:2]) > 1 else None
            nn = P.monomial_normal() if ds else None
            return [x.evaluate(uv) for uv in a["uv"]], [[y.evaluate(uv) for uv in a["uv"]] for y in (ds or ())], [nn.evaluate(uv) for uv in a["uv"]] if nn else None
        return {"c": c, "d": d}, product
    if k == "rational":
        c, w = np.array(a["c"], float), np.array(a["w"], float)
        h = np.concatenate([c * w[:, :, None], w[:, :, None]], axis=2)

        def rational():
            mono = monomial.bezier_to_monomial(h)
            r = monomial.homogeneous_monomial_to_rational_bezier(mono)
            return np.array(r), [monomial.evaluate_rational_bezier_patch(c, w, *uv) for uv in a["uv"]]
        return {"c": c, "w": w, "h": h}, rational
    if k == "bezier":
        c = np.array(a["c"], float)

        def bez():
            S = NURBSSurface(np.array(c), (c.shape[0] - 1, c.shape[1] - 1))
            P = monomial.Monomial2D.from_nurbs(S)
            back = P.to_nurbs()
            return ([np.array(S.evaluate(np.array(uv))) for uv in a["uv"]], [P.evaluate(uv) for uv in a["uv"]], [np.array(back.evaluate(np.array(uv))) for uv in a["uv"]],
                    bool(gauss_map.is_bezier(S)))
        return {"c": c}, bez
    if k == "octree":
        def tree():
            root = octree.OCNode([list(a["lo"]), list(a["hi"])])
            octree.create_octree(root, tuple(a["t"]))
            if a["grow"]:
                octree.traverse(root)
            return root, [octree.closest_node(root, tuple(p)) for p in a["p"]]
        return {}, tree
    if k == "node":
        from mmcore.geom.implicit.tree.utils import find_division_option_2d

        lo, hi, t2 = a["lo"][:2], a["hi"][:2], a["t"][1:]
        mid, dims = [(x + y) / 2 for x, y in zip(lo, hi)], [y - x for x, y in zip(lo, hi)]

        def node():
            x = octree.OCNode([list(a["lo"]), list(a["hi"])])
            return ([tuple(p) in x for p in a["p"]], [x.contains_point(p) for p in a["p"]],
                    [[x.overlap(b), x.in_bbox(b), x.contains_bbox(b), b in x] for b in a["b"]], x, [list(z) for z in x.to_intervals()],
                    find_division_option_2d(lo, hi, mid, dims, t2) if any(x > y for x, y in zip(dims, t2)) else None)
        return {}, node
    if k == "group":
        t = [tuple(x) for x in a["t"]]
        return {"t": t}, lambda: union_find.group_tuples(t)
    if k == "union":
        def union():
            u = union_find.UnionFind(a["n"])
            out = []
            for x, y in a["ops"]:
                u.union(x, y)
                out.append([u.find(z) for z in range(a["n"])])
            return out
        return {}, union
    if k == "sort":
        x = np.array(a["a"], float)

        def sort():
            y = x.copy()
            ix = np.array(quicksort.argsort(y))
            kept = y.copy()
            quicksort.quicksort(y)
            return ix, kept, y
        return {"x": x}, sort
    if k == "unique":
        x = np.array(a["a"], float)

        def unique():
            if not a["r"]:
                return np.array(quicksort.unique(x))
            r = np.full(len(x) + 2, 7.5)
            return np.array(quicksort.unique(x, r)), r[len(x):].copy()
        return {"x": x}, unique
    mod = (bspline_utils, curve_utils)[a.get("m", 0)]
    if k == "basis":
        U = np.array(a["U"])

        def basis():
            out = []
            for u in a["u"]:
                s = mod.find_span(a["p"], u, U)
                out.append([int(s), np.array(mod.calc_basis_functions(s, u, a["p"], U)),
                            np.array(mod.calc_basis_function_derivatives(s, u, a["p"], min(a["nd"], a["p"]), U), float)])
            return out
        return {"U": U}, basis
    if k == "spline":
        U, P = np.array(a["U"]), np.array(a["P"])
        return {"U": U, "P": P}, lambda: [[np.array(mod.calc_b_spline_point(a["p"], U, P, u)), np.array(mod.calc_bspline_derivatives(a["p"], U, P, u, a["nd"])[: a["nd"] + 1]),
                                           np.array(mod.calcNURBSDerivatives(a["p"], U, P, u, a["nd"])[: a["nd"] + 1])] for u in a["u"]]
    if k == "surface":
        U, V, P = np.array(a["U"]), np.array(a["V"]), np.array(a["P"])
        if a["i"]:
            P = P.tolist()
        return {"U": U, "V": V, "P": P}, lambda: [[np.array(mod.calcSurfacePoint(a["p"], a["q"], U, V, P, u, v)),
                                                   np.array(mod.calc_surface_point(a["p"], a["q"], U, V, P, u, v))] for u, v in a["uv"]]
    if k == "area":
        s = Sheet(a, hook)
        b = [list(x) for x in a["b"]]
        if a["cls"]:
            return {"b": b}, lambda: (surface_area.surface_rect_area(s)[0], surface_area.surface_rect_area(s, b)[0])
        return {"b": b}, lambda: (surface_area.surface_rect_area(s.evaluate, b)[0],)
    if k == "frame":
        c = np.array(a["c"])
        f = hook(lambda t: c[0] + c[1] * t + c[2] * t ** 2 + c[3] * t ** 3)
        g = lambda t: c[1] + 2 * c[2] * t + 3 * c[3] * t ** 2
        h = lambda t: 2 * c[2] + 6 * c[3] * t
        if not bent(c, a["t"]):
            return {}, lambda: None
        return {"c": c}, lambda: tnb.frenet_serret_frame(f, g, h, a["t"])
    if k == "table":
        from mmcore.geom.surfaces.ellipsoid import ellipsoid
        from mmcore.numeric.binom import binomial_coefficient_py

        def table():
            rows = [binomial_coefficient_py(i, j) for i, j in a["n"]]
            out = np.full((len(a["uv"]) + 1, 3), 7.5)
            for uv, row in zip(a["uv"], out):
                ellipsoid(*uv, *a["x"], row)
            return rows, out
        return {}, table
    if k == "circle":
        from mmcore.geom.curves import Circle

        o = np.array(a["o"])

        def circle():
            x, y, z = Circle(a["r"]), Circle(a["q"]), Circle(a["r"], o)
            x.origin[0] += 3.0
            z.origin[1] += 1.0
            return ([np.array(y.evaluate(t)) for t in a["t"]], [np.array(z.evaluate(t)) for t in a["t"]], np.array(z.fx(z.origin[0] + a["r"] / 2)), np.array(z.fy(z.origin[1] - a["r"] / 2)),
                    float(z.implict((a["x"], 0.5))), np.array(Circle(1.0).origin))
        return {"o": o}, circle
    p = np.array(a["p"])
    return {"p": p}, lambda: (int(utils.points_order(p, a["close"]) if hasattr(utils, "points_order") else features.points_order(p, a["close"])),
                              np.array(features.polyline_to_lines(p)))


def bent(c, t):
    d1 = c[1] + 2 * c[2] * t + 3 * c[3] * t ** 2
    d2 = 2 * c[2] + 6 * c[3] * t
    n = np.linalg.norm(d1)
    return n > 1e-3 and np.linalg.norm(np.cross(d1, d2)) > 1e-3 * n


# ---------------------------------------------------------------- judging

def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def hull(f, A, B, s, e):
    """The smallest interval with all results of the operation on numbers of A and B."""
    F = Fraction
    A = [F(x) for x in A]
    B = [F(x) for x in B]
    if f in ("add", "iadd"):
        c = [A[0] + B[0], A[1] + B[1]]
    elif f in ("sub", "isub"):
        c = [A[0] - B[1], A[1] - B[0]]
    elif f in ("mul", "imul"):
        c = [x * y for x in A for y in B]
    elif f in ("div", "idiv"):
        if B[0] < 0 < B[1]:
            return -math.inf, math.inf
        c = [x / y for x in A for y in B]
    elif f in ("radd", "adds"):
        c = [x + F(s) for x in A]
    elif f == "subs":
        c = [x - F(s) for x in A]
    elif f == "muls":
        c = [x * F(s) for x in A]
    elif f == "divs":
        c = [x / F(s) for x in A]
    elif f in ("pow", "spow"):
        c = [x ** e for x in A]
        if e > 0 and A[0] < 0 < A[1]:
            c.append(F(0))
    elif f == "inv":
        if A[0] < 0 < A[1]:
            return -math.inf, math.inf
        c = [1 / x for x in A]
    elif f == "and":
        return float(max(A[0], B[0])), float(min(A[1], B[1]))
    else:
        return float(min(A[0], B[0])), float(max(A[1], B[1]))
    return float(min(c)), float(max(c))


def order(A, B):
    return 1 if A[1] < B[0] else 0 if A[0] > B[1] else -1


def bern(n, i, t):
    return math.comb(n, i) * t ** i * (1 - t) ** (n - i)


def mono(c, uv):
    n, m, d = c.shape
    return sum((c[i, j] * uv[0] ** i * uv[1] ** j for i in range(n) for j in range(m)), np.zeros(d))


def bez(c, uv):
    n, m, d = c.shape
    return sum((c[i, j] * bern(n - 1, i, uv[0]) * bern(m - 1, j, uv[1]) for i in range(n) for j in range(m)), np.zeros(d))


def dmono(c, axis):
    c = np.moveaxis(c, axis, 0)
    return np.moveaxis(c[1:] * np.arange(1, len(c))[:, None, None], 0, axis)


def all_basis(p, U, u, s, k=0):
    """Basis functions (k-th derivatives) over the whole vector, by the recursive definition inside span s."""
    n = len(U) - p - 1

    def N(i, q, k):
        if k:
            if q == 0:
                return 0.0
            x, y = U[i + q] - U[i], U[i + q + 1] - U[i + 1]
            return q * ((N(i, q - 1, k - 1) / x if x else 0.0) - (N(i + 1, q - 1, k - 1) / y if y else 0.0))
        if q == 0:
            return 1.0 if i == s else 0.0
        x, y = U[i + q] - U[i], U[i + q + 1] - U[i + 1]
        return ((u - U[i]) / x * N(i, q - 1, 0) if x else 0.0) + ((U[i + q + 1] - u) / y * N(i + 1, q - 1, 0) if y else 0.0)

    return np.array([N(i, p, k) for i in range(n)])


def span(p, U, u):
    n = len(U) - p - 1
    if u >= U[n]:
        return max(i for i in range(p, n) if U[i] < U[i + 1])
    return max(i for i in range(p, n) if U[i] <= u and U[i] < U[i + 1])


def judge(k, a, r, ctx):
    if isinstance(r, BaseException):
        raise exception_violation_of(k, r)
    if k == "interval":
        for f, A, B, s, e, got, fresh, after in r:
            says = f"{f} of {A}, {B}, {s}, {e}"
            if f in ("iadd", "isub", "imul", "idiv"):
                ctx.check(fresh and near(after, B, 0), f"interval:{f}:aside", lambda: f"{says}: edits something else: {after}")
            else:
                ctx.check(fresh and near(after[0], A, 0) and near(after[1], B, 0), f"interval:{f}:operands", lambda: f"{says}: the operands are now {after}")
            if f == "cmp" or f == "cmps":
                o = order(A, B if f == "cmp" else (s, s))
                want = [o, o == 1, o != 0, o == 0, o != 1]
                ctx.check([got[0]] + [bool(x) for x in got[1:]] == want, f"interval:{f}", lambda: f"{says}: {got}, not {want}")
            elif f == "in":
                ctx.check(bool(got) == (A[0] <= B[0] and B[1] <= A[1]), "interval:in", lambda: f"{says}: {got}")
            elif f == "ins":
                ctx.check(bool(got) == (A[0] <= s <= A[1]), "interval:ins", lambda: f"{says}: {got}")
            elif f == "sub2":
                n = 2 ** (abs(e) % 4)
                want = [(A[0] + (A[1] - A[0]) * i / n, A[0] + (A[1] - A[0]) * (i + 1) / n) for i in range(n)]
                ctx.check(near(got, want, 1e-12), "interval:subdivide", lambda: f"{says}: {got}, not {want}")
            elif f == "eval":
                ctx.check(near(got, A[0] + (A[1] - A[0]) * s, 1e-12), "interval:evaluate", lambda: f"{says}: {got}")
            elif f == "tuple":
                ctx.check(near(got, [*A, *A, s, s], 0), "interval:tuple", lambda: f"{says}: {got}")
            elif f == "round":
                ctx.check(near(got, [A, A], 0), "interval:round", lambda: f"{says}: {got}")
            elif f == "ends":
                ctx.check(near(got, [A[0], A[0], A[1], A[1]], 0), "interval:ends", lambda: f"{says}: {got}")
            elif f == "mid":
                ctx.check(near(got, (A[0] + A[1]) / 2, 1e-12), "interval:mid", lambda: f"{says}: {got}")
            elif f == "array":
                ctx.check(near(got, A, 0), "interval:array", lambda: f"{says}: {got}")
            else:
                lo, hi = hull(f, A, B, s, e)
                tol = 1e-12 * (1 + max(abs(x) for x in (lo, hi) if math.isfinite(x)) if math.isfinite(lo) or math.isfinite(hi) else 1)
                ok = all(g == w or abs(g - w) <= tol for g, w in zip(got, (lo, hi)))
                ctx.check(ok, f"interval:{f}", lambda: f"{says}: {got}, not {(lo, hi)}")
        return
    if k == "patch":
        c = np.array(a["c"])
        at, over, back, again, b, q, q2 = r
        want = [mono(c, uv) for uv in a["uv"]]
        ctx.check(near(at, want), "patch:value", lambda: f"{at}, not {want}")
        ctx.check(near(over, want, 1e-7), "patch:bernstein", lambda: f"the Bezier form gives {over}, not {want}")
        ctx.check(near(back, c, 1e-8) and near(again, b, 1e-8), "patch:back", lambda: f"there and back: {back}, not {c}")
        n = len(c) - 1
        w = np.array([[(-1) ** (j - i) * math.comb(n, j) * math.comb(j, i) if j >= i else 0 for i in range(n + 1)] for j in range(n + 1)], float)
        ctx.check(near(q, w, 1e-12) and near(q2, w, 1e-12), "patch:matrix", lambda: f"conversion matrix of degree {n}: {q}, then {q2}")
    elif k == "product":
        c, d = np.array(a["c"]), np.array(a["d"])
        want = [np.cross(mono(c, uv), mono(d, uv)) for uv in a["uv"]]
        ctx.check(near(r[0], want), "product:cross", lambda: f"{r[0]}, not {want}")
        if r[1]:
            ds = [[mono(dmono(c, i), uv) for uv in a["uv"]] for i in (0, 1)]
            ctx.check(near(r[1], ds), "product:derivatives", lambda: f"{r[1]}, not {ds}")
            nn = [np.cross(x, y) for x, y in zip(*ds)]
            ctx.check(near(r[2], nn), "product:normal", lambda: f"{r[2]}, not {nn}")
    elif k == "rational":
        c, w = np.array(a["c"]), np.array(a["w"])
        ctx.check(near(r[0][:, :, :3], c, 1e-8) and near(r[0][:, :, 3], w, 1e-8), "rational:back", lambda: f"there and back: {r[0]}, not {c} with {w}")
        want = [bez(c * w[:, :, None], uv) / bez(w[:, :, None], uv) for uv in a["uv"]]
        ctx.check(near(r[1], want), "rational:value", lambda: f"{r[1]}, not {want}")
    elif k == "bezier":
        c = np.array(a["c"])
        want = [bez(c, uv) for uv in a["uv"]]
        for got, name in zip(r[:3], ("nurbs", "monomial", "back")):
            ctx.check(near(got, want, 1e-7), "bezier:" + name, lambda: f"{name} gives {got}, not {want}")
        ctx.check(r[3] is True, "bezier:is", "a single patch is said to be no Bezier patch")
    elif k == "octree":
        root, found = r
        leaves = []
        walk(root, leaves, ctx, a["grow"])
        ctx.check(near(root[1], a["lo"], 0) and near(root[2], a["hi"], 0), "octree:box", "the root is another box")
        for lo, hi, lamp, depth_ok in leaves:
            d = np.array(hi) - lo
            ctx.check(np.all(d <= np.array(a["t"]) + 1e-3), "octree:size", lambda: f"a leaf of {d} for a target of {a['t']}")
            ctx.check(lamp is not None and near(lamp, (np.array(lo) + hi) / 2, 1e-3), "octree:lamp", lambda: f"a leaf {lo}..{hi} with its lamp at {lamp}")
        for p, n in zip(a["p"], found):
            inside = all(x <= y <= z for x, y, z in zip(root[1], p, root[2]))
            if not inside:
                ctx.check(n is None, "octree:outside", lambda: f"{p} lies outside and is found in {n}")
            else:
                ctx.check(n is not None and not n[4] and all(x <= y <= z for x, y, z in zip(n[1], p, n[2])), "octree:find", lambda: f"{p} is found in {n}")
    elif k == "node":
        lo, hi = a["lo"], a["hi"]
        want = [all(x <= y <= z for x, y, z in zip(lo, p, hi)) for p in a["p"]]
        ctx.check([bool(x) for x in r[0]] == want and [bool(x) for x in r[1]] == want, "node:point", lambda: f"{r[0]}, {r[1]}, not {want}")
        want = [[all(p <= z and q >= x for p, q, x, z in zip(b[0], b[1], lo, hi)), all(p <= x and q >= z for p, q, x, z in zip(b[0], b[1], lo, hi)),
                 all(p >= x and q <= z for p, q, x, z in zip(b[0], b[1], lo, hi))] for b in a["b"]]
        want = [w + [w[2]] for w in want]
        ctx.check([[bool(y) for y in x] for x in r[2]] == want, "node:box", lambda: f"{r[2]}, not {want}")
        ctx.check(near(r[4], list(zip(lo, hi)), 0), "node:intervals", lambda: f"{r[4]}")
        cuts = [z - x > t for x, z, t in zip(lo[:2], hi[:2], a["t"][1:])]
        if r[5] is not None:
            want = [[[x, z]] if not c else [[x, (x + z) / 2], [(x + z) / 2, z]] for x, z, c in zip(lo[:2], hi[:2], cuts)]
            want = sorted([[u[0], v[0]], [u[1], v[1]]] for u in want[0] for v in want[1])
            ctx.check(near(sorted(r[5]), want, 1e-12), "node:flat", lambda: f"{r[5]}, not {want}")
    elif k == "group":
        t = [tuple(x) for x in a["t"]]
        got = [[tuple(x) for x in g] for g in r]
        ctx.check(sorted(x for g in got for x in g) == sorted(t), "group:tuples", lambda: f"{got} of {t}")
        sets = [set(x for y in g for x in y) for g in got]
        for i in range(len(sets)):
            ctx.check(not any(sets[i] & s for s in sets[:i]), "group:apart", lambda: f"two groups share a number: {got}")
            g = list(got[i])
            reached = set(g[0]) if g else set()
            grown = True
            while grown:
                grown = False
                for x in g:
                    if set(x) & reached and not set(x) <= reached:
                        reached |= set(x)
                        grown = True
            ctx.check(g and all(set(x) <= reached for x in g), "group:together", lambda: f"a group of strangers: {g}")
    elif k == "union":
        parts = [{i} for i in range(a["n"])]
        for (x, y), got in zip(a["ops"], r):
            p, q = (next(s for s in parts if z in s) for z in (x, y))
            if p is not q:
                parts.remove(q)
                p |= q
            ctx.check(all(0 <= g < a["n"] for g in got), "union:root", lambda: f"{got}")
            ctx.check(sorted(sorted(i for i in range(a["n"]) if got[i] == v) for v in set(got)) == sorted(map(sorted, parts)), "union:parts", lambda: f"{got}, not {parts}")
            ctx.check(all(got[g] == g for g in got), "union:fixed", lambda: f"a root of another set: {got}")
    elif k == "sort":
        x = np.array(a["a"], float)
        ctx.check(sorted(r[0].tolist()) == list(range(len(x))) and near(x[r[0]], np.sort(x), 0), "sort:indices", lambda: f"{r[0]} for {x}")
        ctx.check(near(r[1], x, 0), "sort:argument", "argsort moved what it was given")
        ctx.check(near(r[2], np.sort(x), 0), "sort:order", lambda: f"{r[2]}")
    elif k == "unique":
        got = r
        if a["r"]:
            got, rest = r
            ctx.check(near(rest, [7.5, 7.5], 0), "unique:beyond", "wrote past the numbers it was given")
        want = sorted(set(x + 0.0 for x in a["a"]))
        ctx.check(near(got, want, 0), "unique:values", lambda: f"{got}, not {want}")
    elif k == "basis":
        for u, (s, N, D) in zip(a["u"], r):
            ws = span(a["p"], a["U"], u)
            ctx.check(s == ws, "basis:span", lambda: f"{u} in {a['U']}: span {s}, not {ws}")
            want = all_basis(a["p"], a["U"], u, s)[s - a["p"]: s + 1]
            ctx.check(near(N, want), "basis:values", lambda: f"degree {a['p']} at {u}: {N}, not {want}")
            for i, d in enumerate(D):
                want = all_basis(a["p"], a["U"], u, s, i)[s - a["p"]: s + 1]
                ctx.check(near(d, want, 1e-8), "basis:derivatives", lambda: f"degree {a['p']} at {u}, derivative {i}: {d}, not {want}")
    elif k == "spline":
        P = np.array(a["P"])
        H = np.concatenate([P[:, :3] * P[:, 3:], P[:, 3:]], axis=1)
        for u, (pt, ders, rat) in zip(a["u"], r):
            s = span(a["p"], a["U"], u)
            want = np.array([all_basis(a["p"], a["U"], u, s, i) @ H for i in range(a["nd"] + 1)])
            ctx.check(near(pt, want[0]), "spline:point", lambda: f"{pt}, not {want[0]}")
            ctx.check(near(ders, want, 1e-8), "spline:derivatives", lambda: f"{ders}, not {want}")
            out = []
            for i in range(a["nd"] + 1):
                v = want[i][:3] - sum((math.comb(i, j) * want[j][3] * out[i - j] for j in range(1, i + 1)), np.zeros(3))
                out.append(v / want[0][3])
            ctx.check(near(rat, out, 1e-7), "spline:rational", lambda: f"{rat}, not {out}")
    elif k == "surface":
        P = np.array(a["P"])
        H = np.concatenate([P[:, :, :3] * P[:, :, 3:], P[:, :, 3:]], axis=2)
        for (u, v), (x, y) in zip(a["uv"], r):
            bu = all_basis(a["p"], a["U"], u, span(a["p"], a["U"], u))
            bv = all_basis(a["q"], a["V"], v, span(a["q"], a["V"], v))
            w = np.einsum("i,j,ijk->k", bu, bv, H)
            w = w[:3] / w[3]
            ctx.check(near(x, w) and near(y, w), "surface:point", lambda: f"{x}, {y}, not {w}")
    elif k == "area":
        (u0, u1), (v0, v1) = a["b"]
        if a["f"] == "plane":
            A, B = np.array(a["x"][:3]) + [2, 0, 0], np.array(a["x"][3:]) + [0, 2.5, 0]
            want = float(np.linalg.norm(np.cross(A, B))) * (u1 - u0) * (v1 - v0)
        elif a["f"] == "cylinder":
            want = a["r"] * (u1 - u0) * (v1 - v0)
        else:
            want = a["r"] ** 2 * (math.cos(u0) - math.cos(u1)) * (v1 - v0)
        ctx.check(all(near(x, want, 1e-6 if a["cls"] else 1e-2) for x in r), "area:value", lambda: f"{r}, not {want}")
    elif k == "frame":
        c, t = np.array(a["c"]), a["t"]
        if r is None:
            return
        d1 = c[1] + 2 * c[2] * t + 3 * c[3] * t ** 2
        d2 = 2 * c[2] + 6 * c[3] * t
        T = d1 / np.linalg.norm(d1)
        B = np.cross(d1, d2) / np.linalg.norm(np.cross(d1, d2))
        want = [c[0] + c[1] * t + c[2] * t ** 2 + c[3] * t ** 3, T, np.cross(B, T), B]
        ctx.check(near(r, want, 1e-7), "frame:axes", lambda: f"{r}, not {want}")
    elif k == "circle":
        o, rad = np.array(a["o"]) + [0, 1, 0], a["r"]
        ctx.check(near(r[0], [[a["q"] * math.cos(t), a["q"] * math.sin(t)] for t in a["t"]]) and near(r[5], [0, 0, 0], 0), "circle:default", lambda: f"another circle's centre was moved: {r[0]}, {r[5]}")
        ctx.check(near(r[1], [[o[0] + rad * math.cos(t), o[1] + rad * math.sin(t)] for t in a["t"]]), "circle:value", lambda: f"{r[1]}")
        h = rad * math.sqrt(0.75)
        ctx.check(near(r[2], [o[1] + h, o[1] - h]) and near(r[3], [o[0] + h, o[0] - h]), "circle:across", lambda: f"{r[2]}, {r[3]}")
        ctx.check(near(r[4], (a["x"] - o[0]) ** 2 + (0.5 - o[1]) ** 2 - rad ** 2), "circle:implicit", lambda: f"{r[4]}")
    elif k == "table":
        want = [float(math.comb(i, j)) for i, j in a["n"]]
        ctx.check(near(r[0], want, 1e-12), "table:binomial", lambda: f"{a['n']}: {r[0]}, not {want}")
        p, q, s = np.array(a["x"][:3]), np.array(a["x"][3:]), math.sin
        want = [q + p * [s(u) * math.cos(v), s(u) * s(v), math.cos(u)] for u, v in a["uv"]] + [[7.5] * 3]
        ctx.check(near(r[1], want, 1e-12), "table:ellipsoid", lambda: f"{r[1]}, not {want}")
    elif k == "order":
        p = np.array(a["p"])
        q = np.concatenate([p, p[:1]]) if a["close"] else p
        d = sum((q[i + 1][0] - q[i][0]) * (q[i + 1][1] + q[i][1]) for i in range(len(q) - 1))
        ctx.check(r[0] == (0 if d > 0 else 1 if d < 0 else -1), "order:turn", lambda: f"{r[0]} for {p.tolist()}")
        want = [[p[i], p[(i + 1) % len(p)]] for i in range(len(p))]
        ctx.check(near(r[1], want, 0), "order:lines", lambda: f"{r[1]}")


def walk(n, leaves, ctx, grown, depth=0):
    lo, hi, lamp, kids = n[1], n[2], n[3], n[4]
    if not kids:
        leaves.append((np.array(lo), np.array(hi), lamp, depth))
        return
    vol = float(np.prod(np.array(hi) - lo))
    total = 0.0
    for i, c in enumerate(kids):
        a, b = np.array(c[1]), np.array(c[2])
        ctx.check(bool(np.all(a >= lo) and np.all(b <= hi) and np.all(a < b)), "octree:inside", lambda: f"a child {c[1]}..{c[2]} of {lo}..{hi}")
        total += float(np.prod(b - a))
        for o in kids[:i]:
            ctx.check(bool(np.any(np.minimum(b, o[2]) - np.maximum(a, o[1]) <= 0)), "octree:apart", lambda: f"children {c[1]}..{c[2]} and {o[1]}..{o[2]} of one node overlap")
    ctx.check(abs(total - vol) <= 1e-9 * vol, "octree:fill", lambda: f"the children of {lo}..{hi} take {total} of {vol}")
    for c in kids:
        walk(c, leaves, ctx, grown, depth + 1)


def exception_violation_of(k, e):
    from sim.core import exception_violation

    return exception_violation(e)


def execute(case, ctx):
    run(case, ctx, make, judge)
