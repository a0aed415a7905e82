"""C09: geometry queries (intersection, proximity, inversion, separation, boxes): certified answers, whoever else asks."""
import contextlib
import importlib
import io
import json
import math

from scipy.interpolate import BSpline
from scipy.spatial import ConvexHull

from props import _asks
from props._nurbs import default_knots
from props._util import *

PROP = "C09"
LEVEL = "exploration"
CONFIGS = ["plain", "concurrent", "faults", "plain"]
PLAN = {"quick": {"seeds": 1500, "seconds": 45, "timeout": 60}, "thorough": {"seeds": 60000, "seconds": 400, "timeout": 60}}
STATES = "distinct (query, calls of the caller's function, answer) tuples and interleavings"
REAL = ["mmcore.numeric.intersection.ccx", "mmcore.numeric.intersection.csx", "mmcore.numeric.intersection.separability.spatial",
        "mmcore.numeric.closest_point", "mmcore.numeric.algorithms (cygjk, gjk, moller, point_inversion)",
        "mmcore.numeric._aabb", "mmcore.numeric.aabb", "mmcore.geom.curves.implicitly"]
STUB = []
ASSUMPTIONS = ["crossings are transversal and apart, hulls are not within 1e-3 of touching"]

M = {}


def setup():
    for k, n in [("ccx", "numeric.intersection.ccx.ccx"), ("csx", "numeric.intersection.csx"), ("cp", "numeric.closest_point"),
                 ("cygjk", "numeric.algorithms.cygjk"), ("gjk", "numeric.algorithms.gjk"), ("mol", "numeric.algorithms.moller"),
                 ("inv", "numeric.algorithms.point_inversion"), ("box", "numeric._aabb"), ("aabb", "numeric.aabb"),
                 ("sep", "numeric.intersection.separability.spatial"), ("imp", "geom.curves.implicitly"), ("nurbs", "geom.nurbs"),
                 ("circle", "geom.circle"), ("curve", "geom.curves.curve")]:
        M[k] = importlib.import_module("mmcore." + n)


def r(rng, lo, hi):
    return round(rng.uniform(lo, hi), rng.choice([1, 3, 6]))


# -- shared shapes: one ask and its repetitions query the same object -------------------------------------------------
POOL = {}


class _Watch:
    """What a query must leave alone about a shape it was handed."""

    def __init__(self, c):
        self.c = c

    def __iter__(self):
        c = self.c
        yield np.array(c.control_points)
        if hasattr(c, "knots_u"):
            yield np.array(c.knots_u)
            yield np.array(c.knots_v)
        else:
            yield np.array(c.knots)
        yield [list(x) if hasattr(x, "__len__") else float(x) for x in c.interval()]


def knots_of(a):
    n, p = len(a["p"]), a["deg"]
    u = default_knots(n, p)
    return u * a.get("sc", 1.0) + a.get("sh", 0.0)


def curve(a):
    key = json.dumps(a)
    if key not in POOL:
        pts = np.array(a["p"], float)
        POOL[key] = M["nurbs"].NURBSCurve(pts, a["deg"], knots=knots_of(a))
    return POOL[key]


def surface(a):
    key = json.dumps(a)
    if key not in POOL:
        POOL[key] = M["nurbs"].NURBSSurface(np.array(a["g"], float), tuple(a["deg"]))
    return POOL[key]


def spline(a):
    return BSpline(knots_of(a), np.array(a["p"], float), a["deg"])


def dense(a, n=1500):
    s = spline(a)
    t = np.linspace(s.t[s.k], s.t[len(a["p"])], n)
    return s, t, s(t)


def greville(n, p):
    u = default_knots(n, p)
    return [float(np.mean(u[i + 1: i + p + 1])) for i in range(n)]


def wild(rng, lo=2, hi=8, span=3.0):
    n = rng.randrange(lo, hi)
    p = min(n - 1, rng.choice([1, 2, 3, 3]))
    return {"p": [[r(rng, -span, span) for _ in range(3)] for _ in range(n)], "deg": p}


def walking(rng, n=None, step=1.0):
    """A curve that moves along x."""
    n = n or rng.randrange(4, 8)
    return {"p": [[i * step, r(rng, -1, 1), r(rng, -1, 1)] for i in range(n)], "deg": 3}


def field(rng, amp=1.0, size=3.0):
    """A height field: x and y are linear in u and v."""
    nu, nv = rng.randrange(2, 6), rng.randrange(2, 6)
    p, q = min(3, nu - 1), min(3, nv - 1)
    gu, gv = greville(nu, p), greville(nv, q)
    ku, kv = size / gu[-1], size / gv[-1]
    return {"g": [[[gu[i] * ku, gv[j] * kv, r(rng, -amp, amp)] for j in range(nv)] for i in range(nu)], "deg": [p, q],
            "k": [ku, kv]}


def height(a, x, y):
    g = np.array(a["g"])
    p, q = a["deg"]
    bu = BSpline.design_matrix(np.clip(np.atleast_1d(x) / a["k"][0], 0, default_knots(len(g), p)[-1]), default_knots(len(g), p), p).toarray()
    bv = BSpline.design_matrix(np.clip(np.atleast_1d(y) / a["k"][1], 0, default_knots(g.shape[1], q)[-1]), default_knots(g.shape[1], q), q).toarray()
    return np.einsum("ni,nj,ij->n", bu, bv, g[..., 2])


def quiet(fn):
    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    return go


ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


def crossings(v, t, gap):
    """Sign changes of the samples that are clearly apart; None where something is too close to call."""
    s = np.sign(v)
    at = np.flatnonzero(s[:-1] * s[1:] < 0)
    return [float(t[i] - v[i] * (t[i + 1] - t[i]) / (v[i + 1] - v[i])) for i in at], at


# -- convex sets ----------------------------------------------------------------------------------------------------
@ask("gjk")
class _:
    @staticmethod
    def gen(rng):
        off = [r(rng, -1, 1) * rng.choice([0, 1, 2, 4]) for _ in range(3)]
        a = {k: [[r(rng, -1.5, 1.5) for _ in range(3)] for _ in range(rng.randrange(4, 14))] for k in "ab"}
        a["b"] = [[x + o for x, o in zip(q, off)] for q in a["b"]]
        a["how"] = rng.choice(["cy", "py", "sep", "cy"])
        return a

    @staticmethod
    def make(a, hook):
        x, y = np.array(a["a"], float), np.array(a["b"], float)
        return [x, y], {"cy": lambda: M["cygjk"].gjk(x, y, 1e-8), "py": lambda: M["gjk"].gjk_collision_detection(x, y),
                        "sep": lambda: not M["sep"].spatial_separability(x, y, 1e-3)}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        x, y = np.array(a["a"], float), np.array(a["b"], float)
        try:
            d = -float(ConvexHull((x[:, None] - y[None]).reshape(-1, 3)).equations[:, 3].max())
        except Exception:  # noqa: BLE001  too flat to call
            return
        if d > 1e-2:
            ctx.check(bool(got), "gjk:apart", lambda: f"sets that overlap by {d} are reported apart ({a['how']})")
        if d < -1e-2:
            ctx.check(not got, "gjk:together", lambda: f"sets {-d} apart are reported to meet ({a['how']})")


# -- parametric against implicit ------------------------------------------------------------------------------------
@ask("curve_pix")
class _:
    @staticmethod
    def gen(rng):
        a = {"c": wild(rng), "n": [r(rng, -1, 1) for _ in range(3)], "o": r(rng, -1.5, 1.5),
             "how": rng.choice(["pix", "ccx", "rccx", "axis", "ray", "plane", "sphere"]), "ax": rng.randrange(3)}
        if rng.chance(0.3):
            a["c"]["sc"], a["c"]["sh"] = rng.choice([0.5, 2.0, 0.1]), rng.choice([0.0, -3.0, 7.0])
        if np.linalg.norm(a["n"]) < 0.1:
            a["n"] = [0.0, 0.0, 1.0]
        if a["how"] in ("pix", "ccx", "rccx") and rng.chance(0.4):
            # a crossing right at, or next to, the end of a step of the search
            s, t, p = dense(a["c"])
            if t[-1] - t[0] > 1.6:
                at = t[0] + 0.5 * rng.randrange(2, int((t[-1] - t[0]) / 0.5)) + rng.choice([1e-3, 5e-4, 1e-4, 1e-5]) * rng.choice([-1, 1])
                a["o"] = float(s(at) @ np.array(a["n"]))
        return a

    @staticmethod
    def value(a):
        n, o, ax = np.array(a["n"]), a["o"], a["ax"]
        if a["how"] == "axis":
            return lambda p: p[..., ax]
        if a["how"] == "ray":
            return lambda p: n[ax] - p[..., ax]
        if a["how"] == "plane":
            return lambda p: p[..., ax] - n[ax]
        if a["how"] == "sphere":
            return lambda p: np.sqrt(((p - n) ** 2).sum(-1)) - (abs(o) + 0.5)
        return lambda p: p @ n - o

    @staticmethod
    def make(a, hook):
        c = curve(a["c"])
        v = ASK["curve_pix"].value(a)
        f = hook(lambda p: float(v(np.asarray(p))))
        n = np.array(a["n"], float)

        class Shape:
            def implicit(self, p):
                return f(p)

        pl = np.array([n, [1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
        x = M["ccx"]
        return [_Watch(c), n, pl], {
            "pix": lambda: x.curve_pix(c, f), "sphere": lambda: x.curve_pix(c, f), "ccx": lambda: x.ccx(c, Shape()),
            "rccx": lambda: x.ccx(Shape(), c), "axis": lambda: x.curve_x_axis(c, a["ax"]),
            "ray": lambda: x.curve_x_ray(c, n, a["ax"]), "plane": lambda: M["csx"].curve_x_plane(c, pl, a["ax"])}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        s, t, p = dense(a["c"])
        v = ASK["curve_pix"].value(a)
        w = v(p)
        got = np.array(got, float).reshape(-1)
        lip = np.abs(np.gradient(w, t)).max() + 1e-9
        for q in got:
            ctx.check(t[0] - 1e-9 <= q <= t[-1] + 1e-9, "pix:outside", lambda: f"parameter {q} lies outside {t[0]}..{t[-1]}")
            ctx.check(abs(v(s(q))) < 2e-3 * lip + 1e-6, "pix:off", lambda: f"value {v(s(q))} at the reported {q}")
        roots, at = crossings(w, t, 0)
        # the turning points between the crossings, and the ends, are well away from zero
        ends = [0, *at, len(t) - 1]
        deep = [np.abs(w[i + 1: j + 1]).max() for i, j in zip(ends[:-1], ends[1:]) if j > i]
        turns = np.flatnonzero(np.diff(np.sign(np.diff(w))) != 0) + 1
        if len(roots) and (np.min(np.diff([t[0], *roots, t[-1]])) < 0.55 or min(deep) < 0.05 or (len(turns) and np.abs(w[turns]).min() < 0.02)):
            return
        for q in roots:
            ctx.check(len(got) and np.abs(got - q).min() < 0.01, "pix:missed", lambda: f"the crossing at {q} is missing from {got}")


# -- two curves -----------------------------------------------------------------------------------------------------
@ask("curve_ppx")
class _:
    @staticmethod
    def gen(rng):
        how = rng.choice(["graphs", "graphs", "lines", "apart"])
        if how == "lines":
            p = [[[r(rng, -3, 3), r(rng, -3, 3), 0.0] for _ in range(2)] for _ in range(2)]
            return {"how": how, "a": {"p": p[0], "deg": 1}, "b": {"p": p[1], "deg": 1}}
        n = rng.randrange(2, 6)
        deg = min(n - 1, rng.choice([1, 2, 3]))
        y = [[r(rng, -1, 1) for _ in range(n)] for _ in range(2)]
        if how == "graphs":
            y[0][0], y[0][-1], y[1][0], y[1][-1] = -1.5, 1.5, 1.2, -1.3
        else:
            y[1] = [v + 3.5 for v in y[1]]
        return {"how": how, "eager": rng.chance(0.8), "ccx": rng.chance(0.4),
                "a": {"p": [[3.0 * i / (n - 1), v, 0.0] for i, v in enumerate(y[0])], "deg": deg},
                "b": {"p": [[3.0 * i / (n - 1), v, 0.0] for i, v in enumerate(y[1])], "deg": deg}}

    @staticmethod
    def make(a, hook):
        c, d = curve(a["a"]), curve(a["b"])
        f = M["ccx"]
        if a.get("ccx"):
            return [_Watch(c), _Watch(d)], lambda: f.ccx(c, d, tol=1e-3)
        return [_Watch(c), _Watch(d)], lambda: f.curve_ppx(c, d, tol=1e-3, eager=a.get("eager", True))

    @staticmethod
    def judge(a, got, ctx):
        s, u = spline(a["a"]), spline(a["b"])
        for x, y in got:
            e = float(np.linalg.norm(s(x) - u(y)))
            ctx.check(e < 0.03, "ppx:off", lambda: f"the curves are {e} apart at the reported {x, y}")
        if a["how"] == "graphs":
            ctx.check(len(got) > 0, "ppx:missed", "two curves that change sides do not meet")
        if a["how"] == "apart":
            ctx.check(len(got) == 0, "ppx:extra", lambda: f"curves apart meet at {got}")
        if a["how"] == "lines":
            p, q = np.array(a["a"]["p"]), np.array(a["b"]["p"])
            m = np.array([p[1] - p[0], q[0] - q[1]])[:, :2].T
            if abs(np.linalg.det(m)) < 0.5:
                return
            st = np.linalg.solve(m, (q[0] - p[0])[:2])
            if np.all((st > 0.02) & (st < 0.98)):
                ctx.check(any(np.abs(np.array(g) - st).max() < 0.01 for g in got), "ppx:missed", lambda: f"{st} is missing from {got}")


@ask("curve_iix")
class _:
    @staticmethod
    def gen(rng):
        return {"c": [[r(rng, -1.5, 1.5) for _ in range(2)] for _ in range(2)], "r": [r(rng, 0.8, 2.5) for _ in range(2)], "ccx": rng.chance(0.5)}

    @staticmethod
    def make(a, hook):
        class Disc:
            def __init__(self, c, rad):
                self.c, self.rad = np.array(c, float), rad
                self.implicit = hook(lambda v: float(np.hypot(v[0] - self.c[0], v[1] - self.c[1]) - rad))

        x, y = Disc(a["c"][0], a["r"][0]), Disc(a["c"][1], a["r"][1])
        f = M["ccx"].ccx if a["ccx"] else M["ccx"].curve_iix
        return [x.c, y.c], lambda: f(x, y)

    @staticmethod
    def judge(a, got, ctx):
        for g in got:
            e = max(abs(float(np.hypot(*(np.asarray(g) - c))) - q) for c, q in zip(np.array(a["c"]), a["r"]))
            ctx.check(e < 1e-4, "iix:off", lambda: f"the reported {g} is {e} off a curve")


# -- curve and surface ----------------------------------------------------------------------------------------------
@ask("csx")
class _:
    @staticmethod
    def gen(rng):
        how = rng.choice(["through", "through", "weave", "miss"])
        a = {"how": how, "s": field(rng, 0.3 if how == "weave" else 1.0), "f": rng.choice(["nurbs_csx", "csx", "csi"])}
        x, y = r(rng, 0.5, 2.5), r(rng, 0.5, 2.5)
        dx, dy = r(rng, -0.15, 0.15), r(rng, -0.15, 0.15)
        if how == "weave":
            z, n = [-1.5, 3.0, -3.0, 1.5], 4
            dx, dy = (r(rng, 0.06, 0.3) * rng.choice([-1, 1]) for _ in range(2))
        else:
            n = rng.randrange(2, 7)
            z = [-1.5 + 3.0 * i / (n - 1) for i in range(n)]
        if how == "miss":
            z = [v + 4 for v in z]
        if rng.chance(0.5):
            z = [-v for v in z]
        a["c"] = {"p": [[x + dx * i / (n - 1), y + dy * i / (n - 1), v] for i, v in enumerate(z)], "deg": min(n - 1, 3)}
        if rng.chance(0.4):
            a["c"]["sc"], a["c"]["sh"] = rng.choice([0.5, 2.0, 0.1]), rng.choice([0.0, -3.0, 7.0])
        return a

    @staticmethod
    def make(a, hook):
        c, s = curve(a["c"]), surface(a["s"])
        m = M["csx"]
        return [_Watch(c), _Watch(s)], {"nurbs_csx": lambda: [list(x[2]) for x in m.nurbs_csx(c, s)], "csx": lambda: m.csx(c, s),
                                        "csi": lambda: [list(x[2]) for x in m.curve_surface_intersection(c, s, tol=1e-3)]}[a["f"]]

    @staticmethod
    def judge(a, got, ctx):
        s, t, p = dense(a["c"])
        got = np.array(got, float).reshape(-1, 3)
        for x in got:
            q = s(x[0])
            k = a["s"]["k"]
            h = height(a["s"], x[1] * k[0], x[2] * k[1])[0]
            e = float(np.linalg.norm(q - [x[1] * k[0], x[2] * k[1], h]))
            ctx.check(e < 5e-3, "csx:off", lambda: f"curve and surface are {e} apart at the reported {x}")
        w = p[:, 2] - height(a["s"], p[:, 0], p[:, 1])
        roots, at = crossings(w, t, 0)
        if a["how"] == "miss":
            ctx.check(len(got) == 0, "csx:extra", lambda: f"a curve away from the surface meets it at {got}")
            return
        if len(roots) != {"through": 1, "weave": 3}[a["how"]]:
            return
        if len(roots) > 1 and np.diff(roots).min() < 0.05 * (t[-1] - t[0]):
            return
        for q in roots:
            ctx.check(len(got) and np.abs(got[:, 0] - q).min() < 0.01 * (t[-1] - t[0]), "csx:missed", lambda: f"the crossing at {q} is missing from {got}")
        ctx.check(len(got) == len(roots), "csx:count", lambda: f"{len(roots)} crossings, {len(got)} reported: {got}")


# -- proximity ------------------------------------------------------------------------------------------------------
@ask("closest_on_curve")
class _:
    @staticmethod
    def gen(rng):
        return {"c": walking(rng) if rng.chance(0.6) else wild(rng, 4, 7),
                "x": [[r(rng, -2, 5), r(rng, -2, 2), r(rng, -2, 2)] for _ in range(rng.choice([1, 1, 3]))], "one": rng.chance(0.5)}

    @staticmethod
    def make(a, hook):
        c = curve(a["c"])
        x = np.array(a["x"], float)
        if a["one"]:
            x = x[0]
        return [_Watch(c), x], lambda: M["cp"].closest_point_on_curve(c, x)

    @staticmethod
    def judge(a, got, ctx):
        s, t, p = dense(a["c"])
        got = [got] if a["one"] else got
        ctx.check(len(got) == (1 if a["one"] else len(a["x"])), "closest:count", lambda: f"{got}")
        for (q, d), x in zip(got, a["x"]):
            e = float(np.linalg.norm(s(q) - x))
            ctx.check(abs(d - e) < 1e-6, "closest:distance", lambda: f"reported {d}, the point at {q} is {e} away")
            best = float(np.linalg.norm(p - x, axis=1).min())
            ctx.check(d < best + 0.02, "closest:farther", lambda: f"reported {d}, but the curve comes as near as {best}")


@ask("local_closest")
class _:
    @staticmethod
    def gen(rng):
        a = {"c": walking(rng), "f": round(rng.uniform(0.15, 0.85), 3), "d": r(rng, -0.05, 0.05), "off": r(rng, -0.05, 0.05),
             "how": rng.choice(["inversion", "inversion", "local", "implicitly", "implicitly_far"])}
        if a["how"] == "implicitly_far":
            a["x"] = [r(rng, -1, 5), r(rng, -2, 2), r(rng, -2, 2)]
        return a

    @staticmethod
    def target(a):
        s = spline(a["c"])
        lo, hi = s.t[s.k], s.t[len(a["c"]["p"])]
        t = lo + (hi - lo) * a["f"]
        d1 = s(t, 1)
        n = np.cross(d1, [0.3, -0.5, 0.8])
        n /= np.linalg.norm(n)
        off = 0.0 if a["how"] == "inversion" else a["off"]
        return s, t, s(t) + n * off, min(max(t + a["d"] * (hi - lo) * 0.5, lo), hi)

    @staticmethod
    def make(a, hook):
        c = curve(a["c"])
        s, t, x, t0 = ASK["local_closest"].target(a)
        if "x" in a:
            x = np.array(a["x"], float)
        how = a["how"]
        if how == "inversion":
            return [_Watch(c), x], lambda: M["inv"].point_inversion_curve(c, x, t0, 1e-6, 1e-6)
        if how == "local":
            return [_Watch(c), x], lambda: M["cp"].local_closest_point_on_curve(c, t0, x, tol=1e-6)
        key = "implicitly" + json.dumps(a["c"])

        def go():
            if key not in POOL:
                POOL[key] = M["imp"].implicitly(c)
            return tuple(POOL[key](x))

        return [_Watch(c), x], go

    @staticmethod
    def judge(a, got, ctx):
        s, t, x, t0 = ASK["local_closest"].target(a)
        if a["how"] == "inversion":
            ctx.check(abs(got - t) < 1e-3, "inversion:off", lambda: f"{got}, the point lies at {t} (started at {t0})")
            return
        if a["how"] == "local":
            q, d = got
        else:
            d, g, q = got
            if "x" in a:
                x = np.array(a["x"], float)
            ctx.check(bool(np.all(np.abs(np.asarray(g) - (s(q) - x)) < 1e-6)), "implicitly:gradient", lambda: f"{g} does not lead to the point at {q}")
            lo, hi = s.t[s.k], s.t[len(a["c"]["p"])]
            ctx.check(lo - 1e-9 <= q <= hi + 1e-9, "implicitly:outside", lambda: f"{q} is not on the curve")
        e = float(np.linalg.norm(s(q) - x))
        ctx.check(abs(d - e) < 1e-6, "local:distance", lambda: f"reported {d}, the point at {q} is {e} away")
        if "x" not in a:
            near = float(np.linalg.norm(s(t) - x))
            ctx.check(d < near + 1e-4, "local:farther", lambda: f"reported {d}, but the point at {t} is {near} away")


@ask("on_surface")
class _:
    @staticmethod
    def frame(a, uv):
        k = a["s"]["k"]

        def at(q):
            return np.array([q[0] * k[0], q[1] * k[1], height(a["s"], q[0] * k[0], q[1] * k[1])[0]])

        h = 1e-5
        uv = np.asarray(uv, float)
        return at(uv), (at(uv + [h, 0]) - at(uv - [h, 0])) / (2 * h), (at(uv + [0, h]) - at(uv - [0, h])) / (2 * h)

    @staticmethod
    def gen(rng):
        return {"s": field(rng), "uv": [round(rng.uniform(0.2, 0.8), 3) for _ in range(2)],
                "d": [round(rng.uniform(-0.05, 0.05), 3) for _ in range(2)], "off": r(rng, -0.1, 0.1), "how": rng.choice(["inversion", "foot"])}

    @staticmethod
    def target(a):
        g = np.array(a["s"]["g"])
        hi = [default_knots(g.shape[0], a["s"]["deg"][0])[-1], default_knots(g.shape[1], a["s"]["deg"][1])[-1]]
        uv = np.array([a["uv"][0] * hi[0], a["uv"][1] * hi[1]])

        at, du, dv = ASK["on_surface"].frame(a, uv)
        n = np.cross(du, dv)
        n /= np.linalg.norm(n)
        return uv, at + n * (a["off"] if a["how"] == "foot" else 0), uv + np.array(a["d"]) * hi

    @staticmethod
    def make(a, hook):
        s = surface(a["s"])
        uv, x, st = ASK["on_surface"].target(a)
        if a["how"] == "inversion":
            return [_Watch(s), x], lambda: M["inv"].point_inversion_surface(s, x, st[0], st[1], 1e-6, 1e-6)
        f = hook(lambda q: s.evaluate(np.asarray(q)))
        return [_Watch(s), x], lambda: M["cp"].foot_point(f, x, st[0], st[1])

    @staticmethod
    def judge(a, got, ctx):
        uv, x, st = ASK["on_surface"].target(a)
        q = np.asarray(got if a["how"] == "inversion" else got[1:], float)
        if a["how"] == "inversion" and np.abs(q - uv).max() >= 5e-3:
            # the step from the answer arrives exactly: it is the iterate before the one that converged
            at, du, dv = ASK["on_surface"].frame(a, q)
            step = np.linalg.lstsq(np.column_stack([du, dv]), x - at, rcond=None)[0]
            ctx.check(np.abs(q + step - uv).max() > 1e-5, "surface:step-behind", lambda: f"{q}, the point lies at {uv}, one step further (started at {st})")
        ctx.check(float(np.abs(q - uv).max()) < 5e-3, "surface:off", lambda: f"{q}, the point lies at {uv} (started at {st})")


@ask("pairs")
class _:
    @staticmethod
    def gen(rng):
        if rng.chance(0.3):
            # the two nearest face each other across the middle, and others of the strip lie between them in y
            k, b = rng.randrange(2, 8), rng.randrange(1, 3)
            p = [[0.0, 0.02], [-r(rng, 0.1, 0.5), -0.02]]
            p += [[0.9, 0.0], [-0.9, 0.005]][:b]
            p += [[-3.0 - 2 * i, r(rng, -3, 3)] for i in range(k + 2 - b)] + [[3.0 + 2 * i, r(rng, -3, 3)] for i in range(k)]
            m, x, y = rng.choice([0.1, 1.0, 3.0]), r(rng, -3, 3), r(rng, -3, 3)
            rng.shuffle(p)
            return {"p": [[u * m + x, v * m + y] for u, v in p]}
        n = rng.randrange(2, 40)
        whole = rng.chance(0.4)
        return {"p": [[rng.randrange(-9, 10) if whole else r(rng, -5, 5) for _ in range(2)] for _ in range(n)]}

    @staticmethod
    def make(a, hook):
        p = [tuple(x) for x in a["p"]]
        return [p], lambda: M["cp"].min_distance(p)

    @staticmethod
    def judge(a, got, ctx):
        p = np.array(a["p"], float)
        if len(p) < 2:
            return
        d, (i, j) = got
        e = np.linalg.norm(p[:, None] - p[None], axis=-1) + np.eye(len(p)) * 1e9
        ctx.check(i != j and abs(e[i, j] - d) < 1e-9, "pairs:distance", lambda: f"points {i}, {j} are {e[i, j]} apart, not {d}")
        ctx.check(d < e.min() + 1e-9, "pairs:farther", lambda: f"{d} reported, the nearest two are {e.min()} apart")


@ask("line")
class _:
    @staticmethod
    def gen(rng):
        return {"l": [[r(rng, -3, 3) for _ in range(3)] for _ in range(2)], "x": [r(rng, -3, 3) for _ in range(3)], "ray": rng.chance(0.5)}

    @staticmethod
    def make(a, hook):
        line, x = np.array(a["l"], float), np.array(a["x"], float)
        f = M["cp"].closest_point_on_ray if a["ray"] else M["cp"].closest_point_on_line
        return [line, x], lambda: np.asarray(f(line, x))

    @staticmethod
    def judge(a, got, ctx):
        line, x = np.array(a["l"], float), np.array(a["x"], float)
        w = line[1] if a["ray"] else line[1] - line[0]
        if np.linalg.norm(w) < 0.1:
            return
        z = line[0] + w * ((x - line[0]) @ w) / (w @ w)
        ctx.check(float(np.abs(got - z).max()) < 1e-8, "line:off", lambda: f"{got}, expected {z}")


# -- triangles and boxes --------------------------------------------------------------------------------------------
@ask("triangles")
class _:
    @staticmethod
    def gen(rng):
        n = rng.choice([1, 1, 3, 8, 40])
        whole = rng.chance(0.3)

        def pt():
            return [float(rng.randrange(-2, 3)) if whole else r(rng, -1, 1) for _ in range(3)]

        return {"v": [[pt() for _ in range(3)] for _ in range(n)], "s": [pt(), pt()], "how": rng.choice(["one", "all", "parallel", "single"])}

    @staticmethod
    def make(a, hook):
        v = np.array(a["v"], float)
        v = [np.ascontiguousarray(v[:, i]) for i in range(3)]
        s, e = np.array(a["s"], float)
        n = len(v[0])
        m = M["mol"]

        def go():
            out, flags = np.full((n, 3), 77.0), np.full(n, 9, np.int32)
            if a["how"] == "one":
                o = np.full(3, 77.0)
                x = m.intersect_triangles_segment_one(*v, s, e, o)
                return [o, x[1]]
            if a["how"] == "single":
                for i in range(n):
                    flags[i] = m.intersect_triangle_segment(v[0][i], v[1][i], v[2][i], s, e, out[i])
            elif a["how"] == "all":
                m.intersect_triangles_segment(*v, s, e, out, flags)
            else:
                m.intersect_triangles_segment_parallel(*v, s, e, out, flags)
            return [out, flags]

        return [v, s, e], go

    @staticmethod
    def judge(a, got, ctx):
        v = np.array(a["v"], float)
        s, e = np.array(a["s"], float)
        want = []
        for t in v:
            m = np.c_[t[1] - t[0], t[2] - t[0], s - e]
            if abs(np.linalg.det(m)) < 1e-6:
                want.append(None)
                continue
            x = np.linalg.solve(m, s - t[0])
            q = min(x[0], x[1], 1 - x[0] - x[1], x[2], 1 - x[2])
            want.append((q > 0, s + x[2] * (e - s)) if abs(q) > 1e-6 else None)
        out, flags = got
        if a["how"] == "one":
            sure = [w for w in want if w is not None and w[0]]
            if sure:
                ctx.check(flags != 0, "triangles:missed", "the segment passes through a triangle")
            if all(w is not None for w in want) and not sure:
                ctx.check(flags == 0, "triangles:extra", "the segment passes through no triangle")
            if flags and all(w is not None for w in want):
                ctx.check(any(np.abs(w[1] - out).max() < 1e-6 for w in sure), "triangles:point", lambda: f"{out}")
            return
        for i, w in enumerate(want):
            if w is None:
                continue
            ctx.check(bool(flags[i]) == w[0], "triangles:missed" if w[0] else "triangles:extra", lambda: f"triangle {i}: flag {flags[i]}")
            if w[0]:
                ctx.check(float(np.abs(out[i] - w[1]).max()) < 1e-6, "triangles:point", lambda: f"triangle {i}: {out[i]}, expected {w[1]}")
                if a["how"] in ("all", "parallel"):
                    ctx.check(flags[i] == 1, "triangles:class", lambda: f"an inner point is classified {flags[i]}")


@ask("boxes")
class _:
    @staticmethod
    def gen(rng):
        k = rng.choice([2, 3, 3])
        how = rng.choice(["aabb", "overlap", "fast", "pyoverlap", "common", "segment", "clip", "ray", "span", "inside"])
        if how in ("fast", "common", "segment", "clip", "ray", "span"):
            k = 3
        whole = rng.chance(0.5)

        def pt():
            return [float(rng.randrange(-3, 4)) if whole else r(rng, -3, 3) for _ in range(k)]

        return {"how": how, "a": [pt() for _ in range(rng.randrange(1, 6))], "b": [pt() for _ in range(rng.randrange(1, 5))], "s": [pt(), pt()]}

    @staticmethod
    def boxes(a):
        p, q = np.array(a["a"], float), np.array(a["b"], float)
        return np.array([p.min(0), p.max(0)]), np.array([q.min(0), q.max(0)])

    @staticmethod
    def make(a, hook):
        p = np.array(a["a"], float)
        x, y = ASK["boxes"].boxes(a)
        s = np.array(a["s"], float)
        m = M["box"]

        def span():
            o = np.full((2, 3), 77.0)
            m.aabb_segm3d(s[0], s[1], o)
            return o

        def clip():
            o = np.full((2, 3), 77.0)
            g = m.segment_aabb_clip(x, s, o)
            return None if g is None else np.array(g)

        def common():
            g = m.aabb_intersection(x, y)
            return None if g is None else np.array(g)

        return [p, x, y, s], {
            "aabb": lambda: np.array(m.aabb(p)), "overlap": lambda: m.aabb_intersect(x, y), "fast": lambda: m.aabb_intersect_fast_3d(x, y),
            "pyoverlap": lambda: M["aabb"].aabb_overlap(x, y), "common": common, "segment": lambda: m.segment_aabb_intersect(x, s),
            "clip": clip, "ray": lambda: m.ray_aabb_intersect(x, s[0], s[1]), "span": span,
            "inside": lambda: M["aabb"].point_in_aabb(x, s[0])}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        x, y = ASK["boxes"].boxes(a)
        s = np.array(a["s"], float)
        how = a["how"]
        if how == "aabb":
            ctx.check(np.array_equal(np.asarray(got), x), "boxes:bounds", lambda: f"{got}, expected {x}")
        elif how == "span":
            ctx.check(np.array_equal(got, [s.min(0), s.max(0)]), "boxes:bounds", lambda: f"{got}, expected {s.min(0), s.max(0)}")
        elif how == "inside":
            ctx.check(bool(got) == bool(np.all((x[0] <= s[0]) & (s[0] <= x[1]))), "boxes:inside", lambda: f"{got}: {s[0]} in {x}")
        elif how in ("overlap", "fast", "pyoverlap", "common"):
            both = np.array([np.maximum(x[0], y[0]), np.minimum(x[1], y[1])])
            meet = bool(np.all(both[0] <= both[1]))
            ctx.check((got is not None and got is not False and got != 0 if how != "common" else got is not None) == meet, "boxes:meet", lambda: f"{how}: {got} for {x} and {y}")
            if how == "common" and meet:
                ctx.check(np.array_equal(got, both), "boxes:common", lambda: f"{got}, expected {both}")
        else:
            o, d = s[0], (s[1] if how == "ray" else s[1] - s[0])
            if np.abs(d).max() < 1e-3:
                return
            with np.errstate(all="ignore"):
                lo, hi = -math.inf if how == "ray" else 0.0, math.inf if how == "ray" else 1.0
                if how == "ray":
                    lo = 0.0
                hit = True
                margin = math.inf
                for i in range(3):
                    if abs(d[i]) < 1e-12:
                        hit = hit and x[0, i] <= o[i] <= x[1, i]
                        continue
                    t = sorted([(x[0, i] - o[i]) / d[i], (x[1, i] - o[i]) / d[i]])
                    lo, hi = max(lo, t[0]), min(hi, t[1])
                margin = hi - lo
            if abs(margin) < 1e-9 and hit:
                return
            hit = hit and margin > 0
            ctx.check((got is not None) == hit, "boxes:hit", lambda: f"{how}: {got} for {x}, {s}")
            if not hit:
                return
            if how == "ray":
                ctx.check(abs(got[0] - lo) < 1e-9, "boxes:enters", lambda: f"enters at {got[0]}, expected {lo}")
            elif how == "segment":
                ctx.check(abs(got[0] - lo) < 1e-9 and abs(got[1] - hi) < 1e-9, "boxes:enters", lambda: f"{got}, expected {lo, hi}")
            else:
                w = np.array([o + d * lo, o + d * hi])
                ctx.check(float(np.abs(got - w).max()) < 1e-9, "boxes:clip", lambda: f"{got}, expected {w}")


@ask("curve_box")
class _:
    @staticmethod
    def gen(rng):
        return {"c": wild(rng), "part": [round(rng.uniform(0, 0.4), 2), round(rng.uniform(0.6, 1), 2)] if rng.chance(0.5) else None}

    @staticmethod
    def make(a, hook):
        c = curve(a["c"])
        lo, hi = c.interval()
        b = None if a["part"] is None else (lo + (hi - lo) * a["part"][0], lo + (hi - lo) * a["part"][1])
        return [_Watch(c)], lambda: np.array(M["aabb"].curve_aabb(c, bounds=b, tol=1e-3))

    @staticmethod
    def judge(a, got, ctx):
        s, t, p = dense(a["c"])
        if a["part"]:
            lo, hi = t[0], t[-1]
            p = s(np.linspace(lo + (hi - lo) * a["part"][0], lo + (hi - lo) * a["part"][1], 1500))
        e = float(np.abs(got - [p.min(0), p.max(0)]).max())
        ctx.check(e < 0.02, "curve_box:off", lambda: f"{got}, expected {p.min(0), p.max(0)}")


KINDS = sorted(ASK)


def generate(rng, config):
    case = _asks.plan(rng, config, KINDS, lambda g, k: ASK[k].gen(g))
    case["env"] = base_env(rng)
    return case


def make(k, a, hook):
    x, f = ASK[k].make(a, hook)
    return x, quiet(f) if k in () else f


def judge(k, a, got, ctx):
    if isinstance(got, Exception):
        if k == "local_closest" and a["how"] == "local" and isinstance(got, RuntimeError):
            return  # the search did not converge and says so
        raise got
    ASK[k].judge(a, got, ctx)


def execute(case, ctx):
    POOL.clear()
    _asks.run(case, ctx, make, judge)
