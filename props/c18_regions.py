"""C18: plane regions (polygons, hulls, closed curves): membership, clipping and areas follow the points they are given."""
import contextlib
import importlib
import io
import json
import math

from scipy.interpolate import BSpline

from props import _asks
from props._nurbs import default_knots
from props._util import *

PROP = "C18"
LEVEL = "exploration"
CONFIGS = ["plain", "concurrent", "faults", "plain"]
PLAN = {"quick": {"seeds": 4000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 120000, "seconds": 300, "timeout": 60}}
STATES = "distinct (question, calls of the caller's function, answer) tuples and interleavings"
REAL = ["mmcore.geom.polygon", "mmcore.numeric.algorithms.point_in_curve", "mmcore.geom.surfaces (build_boundary, CurveOnSurface)",
        "mmcore.numeric.intersection.ccx (curve_x_ray)"]
STUB = ["the closed curve, the implicit shape and the surface a caller brings are small classes of the harness"]
ASSUMPTIONS = ["queried points lie off the boundary; clipped polygons are simple and cross in general position"]

M = {}
POOL = {}


def setup():
    for k, n in [("poly", "geom.polygon"), ("pic", "numeric.algorithms.point_in_curve"), ("nurbs", "geom.nurbs"),
                 ("surf", "geom.surfaces"), ("bspline", "geom.curves.bspline")]:
        M[k] = importlib.import_module("mmcore." + n)


def shared(kind, a, build):
    key = kind + json.dumps(a)
    if key not in POOL:
        POOL[key] = build()
    return POOL[key]


def inside(q, p):
    """Even-odd rule, written from the definition."""
    odd = False
    for (ax, ay), (bx, by) in zip(p, [*p[1:], p[0]]):
        if (ay > q[1]) != (by > q[1]) and q[0] < ax + (q[1] - ay) * (bx - ax) / (by - ay):
            odd = not odd
    return odd


def apart(q, p):
    """Distance from a point to the boundary of a polygon."""
    p = np.asarray(p, float)
    b = np.roll(p, -1, axis=0)
    d = b - p
    n = (d * d).sum(1)
    n[n == 0] = 1
    t = np.clip(((q - p) * d).sum(1) / n, 0, 1)
    return float(np.hypot(*(q - p - t[:, None] * d).T).min())


def shoelace(p):
    p = np.asarray(p, float)
    q = np.roll(p, -1, axis=0)
    return abs(float((p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0]).sum())) / 2


def star(rng, spread=1.0, size=2.0):
    """A simple polygon around a centre."""
    while True:
        n = rng.randrange(3, 9)
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if max(b - a for a, b in zip(ang, [*ang[1:], ang[0] + 2 * math.pi])) < 2.9:
            break
    c = [rng.uniform(-spread, spread) for _ in "xy"]
    k = size * rng.choice([1, 1, 1, 0.3])
    p = [[c[0] + k * f * math.cos(a), c[1] + k * f * math.sin(a)] for a in ang for f in [rng.uniform(0.3, 1)]]
    d = rng.choice([1, 3, 6, 6])
    p = [[round(x, d) for x in v] for v in p]
    return p[::-1] if rng.chance(0.5) else p


def box(rng):
    x, y, w, h = rng.randrange(-3, 2), rng.randrange(-3, 2), rng.randrange(1, 5), rng.randrange(1, 5)
    return [[float(u), float(v)] for u, v in [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]]


def comb(rng):
    return comb_and_bar(rng)[0]


def comb_and_bar(rng):
    """Teeth on a beam, and a bar across the teeth, turned."""
    n = rng.randrange(2, 5)
    w = 3.5 / n
    p = [[-2.0, -1.5], [1.75, -1.5]]
    for i in reversed(range(n)):
        x, top, low = -2 + w * i, rng.uniform(0.5, 2), rng.uniform(-1, 0)
        p += [[x + w * rng.uniform(0.55, 0.8), low], [x + w * rng.uniform(0.4, 0.5), top], [x + w * rng.uniform(0.1, 0.3), top + rng.uniform(-0.2, 0.2)], [x + 0.02, low]]
    y = rng.uniform(0.05, 0.4)
    q = [[-2.5, y], [2.3, y + rng.uniform(-0.1, 0.1)], [2.3, y + rng.uniform(0.5, 1.5)], [-2.4, y + rng.uniform(0.3, 1.5)]]
    c, s = [f(rng.uniform(0, 6.28)) for f in (math.cos, math.sin)] if rng.chance(0.3) else rng.choice([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.8, 0.6)])
    k = math.hypot(c, s) or 1.0
    out = []
    for p in (p, q):
        p = [[round((x * c - y * s) / k, 4), round((x * s + y * c) / k, 4)] for x, y in p]
        r = rng.randrange(len(p))
        p = p[r:] + p[:r]
        out.append(p[::-1] if rng.chance(0.5) else p)
    return out


def wild(rng):
    whole = rng.chance(0.4)
    return [[float(rng.randrange(-3, 4)) if whole else round(rng.uniform(-3, 3), 4) for _ in "xy"] for _ in range(rng.randrange(3, 10))]


def queries(rng, p, n=8):
    """Points among them level with the vertices."""
    out = []
    for _ in range(n):
        q = [round(rng.uniform(-3.5, 3.5), 4) for _ in "xy"]
        if rng.chance(0.4):
            q[rng.randrange(2)] = rng.choice(p)[rng.randrange(2)]
        out.append(q)
    return out


def among(rng, p, q, n=10):
    """Points between their vertices."""
    out = []
    for _ in range(n):
        v = [rng.choice(rng.choice([p, q])) for _ in range(3)]
        w = [rng.uniform(0.05, 1) for _ in v]
        out.append([round(sum(a * x[k] for a, x in zip(w, v)) / sum(w), 5) for k in (0, 1)])
    return out


ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


@ask("member")
class _:
    @staticmethod
    def gen(rng):
        p = rng.choice([wild, star, box])(rng)
        far = rng.choice([0.0, 0.0, 0.0, 1e4])
        p = [[x + far, y] for x, y in p]
        return {"p": p, "q": [[x + far, y] for x, y in queries(rng, [[x - far, y] for x, y in p])],
                "how": rng.choice(["scan", "tree", "ray", "scan", "tree"]), "as": rng.choice(["array", "tuple"]), "closed": rng.chance(0.3)}

    @staticmethod
    def make(a, hook):
        f = {"scan": M["poly"].is_point_in_polygon, "tree": lambda q, p: M["poly"].is_point_in_polygon_bvh(p, q),
             "ray": lambda q, p: M["poly"].point_in_polygon(p, q)}[a["how"]]
        pts = a["p"] + a["p"][:1] if a["closed"] else a["p"]
        if a["how"] == "ray" or a["as"] == "array":
            p, q = shared("pts", [pts], lambda: np.array(pts, float)), np.array(a["q"], float)
        else:
            p, q = tuple(map(tuple, pts)), [tuple(x) for x in a["q"]]
        return [p, q], lambda: [bool(f(x, p)) for x in q]

    @staticmethod
    def judge(a, got, ctx):
        p = np.array(a["p"], float)
        span = p.max(0) - p.min(0)
        for q, g in zip(np.array(a["q"], float), got):
            if apart(q, p) < 1e-6:
                continue
            if a["how"] == "ray":
                if min(span) < 1e-3 or any(abs(span[0] * (v[1] - q[1]) - span[1] * (v[0] - q[0])) < 1e-6 for v in p):
                    continue  # its ray runs through a vertex
            w = inside(q, a["p"])
            ctx.check(g == w, f"member:{a['how']}", lambda: f"{q} is {'inside' if w else 'outside'} {a['p']}, reported {g}")


@ask("clip")
class _:
    """Several operations on the same two polygons."""

    OPS = ["union", "intersection", "difference", "|", "-", "+", "list|"]

    @staticmethod
    def gen(rng):
        p = rng.choice([star, star, star, box, comb])(rng)
        q = star(rng, rng.choice([0.5, 1, 3])) if rng.chance(0.6) else rng.choice([box, comb])(rng)
        if rng.chance(0.25):
            p, q = comb_and_bar(rng)
        return {"p": p, "q": q, "ops": [rng.choice(ASK["clip"].OPS) for _ in range(rng.choice([1, 2, 3]))],
                "via": rng.choice(["object", "object", "points"]), "at": queries(rng, p, 8) + among(rng, p, q), "swap": rng.chance(0.3)}

    @staticmethod
    def make(a, hook):
        P = M["poly"].Polygon
        p = shared("poly", a["p"], lambda: P(a["p"]))
        q = shared("poly", a["q"], lambda: P(a["q"]))
        if a["swap"]:
            p, q = q, p
        do = {"|": lambda: p | q, "-": lambda: p - q, "+": lambda: p + q, "list|": lambda: (p | [q])[0],
              "union": lambda: p.union(q), "intersection": lambda: p.intersection(q), "difference": lambda: p.difference(q)}

        def points(op):
            op = {"|": "intersection", "-": "difference", "+": "union", "list|": "intersection"}.get(op, op)
            s, c = (a["q"], a["p"]) if a["swap"] else (a["p"], a["q"])
            return M["poly"].clip_polygon(s, c, op)

        class Seen:
            def __iter__(self):
                yield p.corners
                yield q.corners

        return [Seen(), a["p"], a["q"]], lambda: [[np.array(x.corners) for x in (points(op) if a["via"] == "points" else do[op]())]
                                                  for op in a["ops"]]

    @staticmethod
    def judge(a, got, ctx):
        p, q = (a["q"], a["p"]) if a["swap"] else (a["p"], a["q"])
        ap, aq = np.array(p), np.array(q)
        if min(min(apart(v, aq) for v in ap), min(apart(v, ap) for v in aq)) < 1e-4:
            return  # a corner on the other's boundary
        for op, parts in zip(a["ops"], got):
            what = {"|": "intersection", "-": "difference", "+": "union", "list|": "intersection"}.get(op, op)
            cross = any(_cross(s, t) for s in _edges(ap) for t in _edges(aq))
            if what == "difference" and not cross and inside(q[0], p):
                continue  # a hole has no polygon of its own
            for x in np.array(a["at"], float):
                if min(apart(x, ap), apart(x, aq)) < 1e-4:
                    continue
                i, j = inside(x, p), inside(x, q)
                w = {"union": i or j, "intersection": i and j, "difference": i and not j}[what]
                n = sum(inside(x, part[:, :2].tolist()) for part in parts)
                ctx.check(n < 2 or what == "union", f"clip:{what}:overlap", lambda: f"{x} is in {n} parts of the {what} ({p}, {q})")
                g = n % 2 == 1
                ctx.check(g == w, f"clip:{what}", lambda: f"{x}: in subject {i}, in clip {j}, in their {what} {g} ({p}, {q})")
            if not cross:
                ctx.check(len(parts) == {"union": 1 if inside(p[0], q) or inside(q[0], p) else 2, "difference": 0 if inside(p[0], q) else 1,
                                         "intersection": 1 if inside(p[0], q) or inside(q[0], p) else 0}[what],
                          f"clip:{what}:parts", lambda: f"{len(parts)} parts of {p} and {q}")


def _edges(p):
    return [(p[i], p[(i + 1) % len(p)]) for i in range(len(p))]


def _cross(s, t):
    def side(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    return side(*s, t[0]) * side(*s, t[1]) < 0 and side(*t, s[0]) * side(*t, s[1]) < 0


def graham(p):
    """Andrew's monotone chain."""
    p = sorted(map(tuple, p))

    def half(ps):
        h = []
        for v in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (v[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (v[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(v)
        return h

    return half(p)[:-1] + half(p[::-1])[:-1]


@ask("hull")
class _:
    @staticmethod
    def gen(rng):
        n = rng.choice([1, 2, 3, 4, 6, 12, 40])
        whole = rng.chance(0.4)
        p = [[float(rng.randrange(-3, 4)) if whole else round(rng.uniform(-3, 3), 5) for _ in "xy"] for _ in range(n)]
        if rng.chance(0.2):
            p.append(list(rng.choice(p)))
        return {"p": p, "as": rng.choice(["array", "array", "list"])}

    @staticmethod
    def make(a, hook):
        p = shared("pts", a["p"], lambda: np.array(a["p"], float)) if a["as"] == "array" else a["p"]
        return [p], lambda: np.array(M["poly"].convex_hull2d(p))

    @staticmethod
    def judge(a, got, ctx):
        if len(a["p"]) < 3:
            return
        want = graham(a["p"])
        if len(want) < 3 or shoelace(want) < 1e-3:
            return  # all in line
        have = {tuple(v) for v in got.tolist()}
        ctx.check(have <= set(map(tuple, a["p"])), "hull:invented", lambda: f"{got} has a corner that was not given")
        ctx.check(abs(shoelace(got) - shoelace(want)) < 1e-6, "hull:area", lambda: f"{got.tolist()} is not the hull of {a['p']}")
        if not any(abs(_turn(want, i)) < 1e-6 for i in range(len(want))):
            ctx.check(have == set(want) and len(got) == len(want), "hull:corners", lambda: f"{got.tolist()}, expected {want}")


def _turn(p, i):
    a, b, c = p[i - 2], p[i - 1], p[i]
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


@ask("convex_clip")
class _:
    @staticmethod
    def gen(rng):
        while True:
            h = graham(wild(rng))
            if len(h) >= 3 and shoelace(h) > 0.5:
                break
        off = [round(rng.uniform(-1, 1) * rng.choice([0, 1, 5]), 3) for _ in "xy"]
        s = [[x + off[0], y + off[1]] for x, y in rng.choice([star, wild])(rng)]
        return {"s": s, "c": [list(map(float, v)) for v in h], "at": queries(rng, s, 10)}

    @staticmethod
    def make(a, hook):
        s, c = [list(v) for v in a["s"]], [list(v) for v in a["c"]]
        return [s, c], lambda: M["poly"].clip(s, c)

    @staticmethod
    def judge(a, got, ctx):
        got = [list(map(float, v)) for v in got]
        for x in np.array(a["at"], float):
            if min(apart(x, a["s"]), apart(x, a["c"])) < 1e-6 or (got and apart(x, got) < 1e-6):
                continue
            w = inside(x, a["s"]) and inside(x, a["c"])
            g = bool(got) and inside(x, got)
            ctx.check(g == w, "convex_clip:member", lambda: f"{x}: in both {w}, in the clipped {g} ({a['s']} by {a['c']}: {got})")


@ask("area")
class _:
    @staticmethod
    def gen(rng):
        return {"p": rng.choice([star, box])(rng), "how": rng.choice(["object", "closed", "many", "collection"]), "q": star(rng)}

    @staticmethod
    def make(a, hook):
        m = M["poly"]
        p = np.array(a["p"], float)
        P = shared("poly", a["p"], lambda: m.Polygon(a["p"]))
        Q = shared("poly", a["q"], lambda: m.Polygon(a["q"]))
        return [p, P.corners], {"object": lambda: float(P.area), "closed": lambda: float(m.polygon_area(m.to_polygon_area(p))),
                                "many": lambda: float(m.polygon_area_vectorized(m.to_polygon_area(p)[None])[0]),
                                "collection": lambda: float(m.PolygonCollection([P, Q]).area)}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        w = shoelace(a["p"]) + (shoelace(a["q"]) if a["how"] == "collection" else 0)
        ctx.check(abs(got - w) < 1e-9, "area:off", lambda: f"{got}, expected {w} ({a['how']})")


@ask("closed_curve")
class _:
    """Closed curves: splines, polylines and a caller's own."""

    @staticmethod
    def gen(rng):
        how = rng.choice(["spline", "spline", "polyline", "own", "open"])
        if how == "own":
            f = [[round(rng.uniform(-1, 1) / k, 3) for _ in range(4)] for k in (0.6, 2, 3)]
            return {"how": how, "f": f, "iv": rng.choice([[0.0, 1.0], [-2.0, 3.0], [0.0, 9.0]]), "q": queries(rng, [[0.0, 0.0]], 3), "entry": rng.choice(["any", "par"])}
        p = star(rng) if rng.chance(0.6) else wild(rng)
        deg = 1 if how == "polyline" else min(len(p) - (how == "open"), rng.choice([2, 3, 3]))
        return {"how": how, "p": p, "deg": deg, "sc": rng.choice([1.0, 1.0, 0.5, 2.5]), "sh": rng.choice([0.0, 0.0, -2.0]),
                "cls": rng.choice(["NURBSCurve", "NURBSpline"]), "q": queries(rng, p, 3), "entry": rng.choice(["any", "par", "surface"])}

    @staticmethod
    def points(a):
        p = a["p"] if a["how"] == "open" else a["p"] + a["p"][:1]
        return np.array([[x, y, 0.0] for x, y in p])

    @staticmethod
    def dense(a, n=3000):
        if a["how"] == "own":
            return ASK["closed_curve"].own(a, np.linspace(*a["iv"], n))
        p = ASK["closed_curve"].points(a)
        if a["deg"] == 1:
            return p[:, :2]
        k = default_knots(len(p), a["deg"])
        return BSpline(k, p, a["deg"])(np.linspace(k[0], k[-1], n))[:, :2]

    @staticmethod
    def own(a, t):
        s = 2 * math.pi * (np.asarray(t) - a["iv"][0]) / (a["iv"][1] - a["iv"][0])
        x = sum(c[0] * np.cos(k * s) + c[1] * np.sin(k * s) for k, c in enumerate(a["f"], 1))
        y = sum(c[2] * np.cos(k * s) + c[3] * np.sin(k * s) for k, c in enumerate(a["f"], 1))
        return np.stack([x, y], -1)

    @staticmethod
    def make(a, hook):
        q = [np.array([*x, 0.0]) for x in a["q"]]
        f = M["pic"].point_in_curve if a["entry"] == "any" else M["pic"].point_in_parametric_curve
        if a["how"] == "own":
            call = hook(lambda t: np.array([*ASK["closed_curve"].own(a, t), 0.0]))

            class Own:
                def evaluate(self, t):
                    return call(t)

                def evaluate_multi(self, t):
                    return np.array([call(x) for x in t])

                def interval(self):
                    return tuple(a["iv"])

            c = Own()
            return [q], lambda: [bool(f(c, x)) for x in q]

        def build():
            p = ASK["closed_curve"].points(a)
            k = default_knots(len(p), a["deg"]) * a["sc"] + a["sh"]
            return (M["nurbs"].NURBSCurve if a["cls"] == "NURBSCurve" else M["bspline"].NURBSpline)(p, a["deg"], knots=k)

        c = shared("curve", [a["p"], a["deg"], a["sc"], a["sh"], a["cls"], a["how"] == "open"], build)
        seen = [c.control_points, c.knots, q]
        if a["entry"] == "surface":
            return seen, lambda: [bool(M["surf"].CurveOnSurface(None, c, tuple(c.interval())).point_inside(x)) for x in q]
        return seen, lambda: [bool(f(c, x)) for x in q]

    @staticmethod
    def judge(a, got, ctx):
        p = ASK["closed_curve"].dense(a)
        step = max(np.hypot(*np.diff(p, axis=0).T).max(), 1e-9) if a["how"] != "polyline" else 0.0
        for q, g in zip(np.array(a["q"], float), got):
            if a["how"] == "open":
                if np.hypot(*(p[0] - p[-1])) > 0.1:
                    ctx.check(not g, "closed_curve:open", "a point is inside a curve that is not closed")
                continue
            if apart(q, p) < 0.03 + step / 100:
                continue
            # the crossings with the vertical line through q are apart and steep
            if a["how"] != "polyline" and not _clear(p, q):
                continue
            w = inside(q, p.tolist())
            ctx.check(g == w, f"closed_curve:{a['how']}", lambda: f"{q} is {'inside' if w else 'outside'}, reported {g}: {a}")


def _clear(p, q):
    """Whether the upright line through q crosses the curve only steeply, at places apart from each other and the seam."""
    d = p[:, 0] - q[0]
    at = np.flatnonzero(np.sign(d[:-1]) * np.sign(d[1:]) <= 0)
    ends = [0, *at, len(d) - 1]
    if len(at) and (min(at) < len(d) // 100 or max(at) > len(d) - len(d) // 100):
        return False
    gaps = np.diff(ends)
    if len(at) and gaps.min() < len(d) // 12:
        return False
    turns = np.flatnonzero(np.diff(np.sign(np.diff(d))) != 0) + 1
    return not len(turns) or np.abs(d[turns]).min() > 0.02


@ask("shape")
class _:
    """A caller's implicit region."""

    @staticmethod
    def gen(rng):
        return {"c": [round(rng.uniform(-1, 1), 3) for _ in "xy"], "r": round(rng.uniform(0.3, 2), 3), "q": queries(rng, [[0.0, 0.0]], 4)}

    @staticmethod
    def make(a, hook):
        class Disc:
            implicit = staticmethod(hook(lambda v: float(math.hypot(v[0] - a["c"][0], v[1] - a["c"][1]) - a["r"])))

        q = [np.array([*x, 0.0]) for x in a["q"]]
        return [q], lambda: [bool(M["pic"].point_in_curve(Disc(), x)) for x in q]

    @staticmethod
    def judge(a, got, ctx):
        for q, g in zip(a["q"], got):
            d = math.hypot(q[0] - a["c"][0], q[1] - a["c"][1]) - a["r"]
            if abs(d) > 1e-6:
                ctx.check(g == (d < 0), "shape:side", lambda: f"{q} is {d} from the boundary, reported {g}")


@ask("surface_boundary")
class _:
    """The boundary a surface builds for its parameters."""

    @staticmethod
    def gen(rng):
        iv = [sorted(round(rng.uniform(-3, 3), 2) for _ in range(2)) for _ in "uv"]
        iv = [[a, b + 0.3] for a, b in iv]
        return {"iv": iv, "q": [[round(rng.uniform(-3.5, 3.5), 3) for _ in "uv"] for _ in range(4)]}

    @staticmethod
    def make(a, hook):
        S = M["surf"].Surface
        f = hook(lambda uv: np.array([uv[0], uv[1], uv[0] * uv[1]]))

        class Saddle(S):
            def interval(self):
                return tuple(map(tuple, a["iv"]))

            def evaluate(self, uv):
                return f(uv)

        q = [np.array(x) for x in a["q"]]

        def go():
            s = Saddle()
            s.build_boundary()
            return [[bool(s._boundary.point_inside(x)) for x in q], np.array([s._boundary.evaluate(t) for t in (0.0, 1.0, 2.0, 3.5)])]

        return [q], go

    @staticmethod
    def judge(a, got, ctx):
        (u0, u1), (v0, v1) = a["iv"]
        for q, g in zip(a["q"], got[0]):
            d = min(q[0] - u0, u1 - q[0], q[1] - v0, v1 - q[1])
            if abs(d) > 1e-6:
                ctx.check(g == (d > 0), "surface_boundary:side", lambda: f"{q} against {a['iv']}: {g}")
        w = np.array([[u, v, u * v] for u, v in [(u0, v0), (u1, v0), (u1, v1), (u0, (v0 + v1) / 2)]])
        ctx.check(float(np.abs(np.asarray(got[1]) - w).max()) < 1e-9, "surface_boundary:points", lambda: f"{got[1]}, expected {w}")


KINDS = sorted(ASK)


def generate(rng, config):
    case = _asks.plan(rng, config, KINDS, lambda g, k: ASK[k].gen(g))
    case["env"] = base_env(rng)
    return case


def quiet(fn):
    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    return go


def make(k, a, hook):
    x, f = ASK[k].make(a, hook)
    return x, quiet(f) if k == "clip" else f


def judge(k, a, got, ctx):
    if isinstance(got, Exception):
        raise got
    ASK[k].judge(a, got, ctx)


def execute(case, ctx):
    POOL.clear()
    _asks.run(case, ctx, make, judge)
