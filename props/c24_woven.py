"""C24: surfaces made of curves, of corners or by a user, and curves drawn on them, against formulas for what they are now."""
import copy
import math

from props import c22_composed as c22
from props._curvesim import Alloc
from props._util import *
from props.c22_composed import Fun, Ref, Tick, coefficients, cpts, freeze, knots_for, leaves, scribble, show
from sim import sched
from sim.core import exception_violation

PROP = "C24"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 3000, "seconds": 45, "timeout": 60}, "thorough": {"seeds": 100000, "seconds": 420, "timeout": 60}}
STATES = "distinct (kind of surface, what it is made of now, question, answer) tuples"
REAL = ["mmcore.geom.surfaces (ruled, Coons, bilinear and user-written surfaces, curves on surfaces, isocurves, trees of patches)",
        "mmcore.geom.parametric (compiled ruled and bilinear surfaces)", "mmcore.geom.primitives.Cylinder",
        "mmcore.geom.evaluator.surface_evaluator", "the curves they are made of: NURBSpline, NURBSCurve, CubicSpline, user-written"]
STUB = ["functions written by a user of the library as curves, surfaces and lines on them: they may raise or be preempted",
        "numpy's array makers: one of them refuses memory"]
ASSUMPTIONS = ["whoever edits what a surface is made of rebuilds its tree (build_tree) and calls invalidate_cache on the curves drawn on it",
               "derivatives are judged inside the domain and away from knots, within what a difference of step 1e-3 can tell",
               "knots and control points that do not fit together are not assigned; the curves of a Coons patch keep meeting at its corners"]


# ---------------------------------------------------------------- formulas

def sheet(fam, c, u, v):
    u, v = np.asarray(u, float), np.asarray(v, float)
    if fam == "wavy":
        return np.stack([c[0] * u + c[1], c[2] * v + 0.3 * u, np.sin(c[3] * u) * np.cos(v) * c[4]], -1)
    if fam == "tube":
        r = 2.0 + abs(c[0]) + 0.5 * np.sin(c[3] * v)
        return np.stack([r * np.cos(u) + c[1], r * np.sin(u), c[2] * v], -1)
    if fam == "saddle":
        return np.stack([c[0] * u + 0.2 * v, c[2] * v + c[1], c[4] * u * u - v * v * c[3]], -1)
    raise AssertionError(fam)


def line(c, t):
    """A line drawn in the parameters of a surface (fractions of its domain), written by a user."""
    t = np.asarray(t, float)
    return np.stack([c[0] + c[1] * t + c[2] * t * t, c[3] + c[4] * t + c[5] * np.sin(t)], -1)


class Weave:
    """What every surface of the pool is."""

    def __init__(self):
        self.c = Ref()
        self.s = []

    def uses_curve(self, k, i):
        s = self.s[k]
        if s["t"] == "on":
            return self.uses_curve(s["s"], i)
        return i in s.get("q", ())

    def uses(self, k, j):
        s = self.s[k]
        return k == j or s["t"] == "on" and self.uses(s["s"], j)

    def domain(self, k):
        s = self.s[k]
        if s["t"] == "user":
            return [tuple(x) for x in s["iv"]]
        if s["t"] == "cyl":
            return [(0.0, 2 * math.pi), (0.0, float(np.linalg.norm(np.subtract(s["b"], s["a"]))))]
        return [(0.0, 1.0), (0.0, 1.0)]

    def span(self, i, f):
        lo, hi = self.c.domain(i)
        return lo + (hi - lo) * np.atleast_1d(np.asarray(f, float))

    def curve(self, i, f):
        return self.c.points(i, self.span(i, f))

    def points(self, k, u, v):
        s = self.s[k]
        u, v = np.atleast_1d(np.asarray(u, float)), np.atleast_1d(np.asarray(v, float))
        t = s["t"]
        U, V = u[:, None], v[:, None]
        if t == "user":
            return sheet(s["fam"], s["c"], u, v)
        if t == "ruled":
            a, b = s["q"]
            return (1 - V) * self.curve(a, u) + V * self.curve(b, u)
        if t == "bil":
            a, b, c, d = (np.array(p, float) for p in s["P"])
            return (1 - U) * (1 - V) * a + U * (1 - V) * b + U * V * c + (1 - U) * V * d
        if t == "coons":
            c1, d1, c2, d2 = s["q"]
            p0, p1 = self.curve(c1, [0.0, 1.0])
            p3, p2 = self.curve(c2, [0.0, 1.0])
            return ((1 - V) * self.curve(c1, u) + V * self.curve(c2, u) + (1 - U) * self.curve(d2, v) + U * self.curve(d1, v)
                    - ((1 - U) * (1 - V) * p0 + U * (1 - V) * p1 + U * V * p2 + (1 - U) * V * p3))
        if t == "cyl":
            a, b = np.array(s["a"], float), np.array(s["b"], float)
            d = (b - a) / np.linalg.norm(b - a)
            w = np.array([0.0, 1.0, 0.0]) if np.allclose(np.abs(d), [1, 0, 0]) else np.array([1.0, 0.0, 0.0])
            x = np.cross(d, w)
            x /= np.linalg.norm(x)
            return a + V * d + s["r"] * (np.cos(U) * x + np.sin(U) * np.cross(d, x))
        raise AssertionError(t)

    def rough(self, k):
        """Where, in u and in v, a surface is not smooth."""
        s = self.s[k]
        out = [[], []]
        sides = {"ruled": (0, 0), "coons": (0, 1, 0, 1)}.get(s["t"], ())
        for i, side in zip(s.get("q", ()), sides):
            lo, hi = self.c.domain(i)
            out[side] += [(x - lo) / (hi - lo) for x in self.c.rough(i)]
            if self.c.s[i]["t"] == "func":  # where its differences change their formula
                out[side] += [(x - lo) / (hi - lo) for x in (0.0, 1.0)]
        return out

    def uv(self, k, t):
        """The parameters a curve on a surface passes through."""
        s = self.s[k]
        t = np.atleast_1d(np.asarray(t, float))
        (u0, u1), (v0, v1) = self.domain(s["s"])
        how = s["how"]
        if how == "free":
            f = line(s["c"], t)
            return np.stack([u0 + f[:, 0] * (u1 - u0), v0 + f[:, 1] * (v1 - v0)], -1)
        if how == "u":
            return np.stack([np.full_like(t, s["at"]), t], -1)
        if how == "v":
            return np.stack([t, np.full_like(t, s["at"])], -1)
        e = s["e"]
        return np.array([e[0], e[1]]) + t[:, None] * np.array([e[2] - e[0], e[3] - e[1]])

    def trace(self, k, t):
        p = self.uv(k, t)
        return self.points(self.s[k]["s"], p[:, 0], p[:, 1])

    def ends(self, k):
        s = self.s[k]
        if s["how"] == "u":
            return self.domain(s["s"])[1]
        if s["how"] == "v":
            return self.domain(s["s"])[0]
        return 0.0, 1.0

    def calm(self, k, u, v, room=4e-3):
        """Is the surface smooth around here, and is this well inside?"""
        for x, (lo, hi), rough in zip((u, v), self.domain(k), self.rough(k)):
            w = room * 1.01
            if x - lo < w or hi - x < w or any(abs(lo + r * (hi - lo) - x) < w for r in rough):
                return False
        return True


H = 2e-4


def partials(f, x):
    """First and second derivative of f (an array function) at x, and how much they vary within 2e-3."""
    def d(y):
        m2, m1, o, p1, p2 = (f(y + k * H) for k in (-2, -1, 0, 1, 2))
        return (m2 - 8 * m1 + 8 * p1 - p2) / (12 * H), (-m2 + 16 * m1 - 30 * o + 16 * p1 - p2) / (12 * H * H)

    a, b = d(x)
    v1 = v2 = 0.0
    for y in (x - 2e-3, x + 2e-3):
        c, e = d(y)
        v1, v2 = max(v1, np.abs(c - a).max()), max(v2, np.abs(e - b).max())
    return a, b, v1, v2


# ---------------------------------------------------------------- cases

def curve(rng):
    k = rng.choice(["spline", "spline", "nc", "nc", "func", "cubic"])
    if k in ("spline", "nc"):
        p = rng.choice([1, 2, 3, 3, 4])
        n = p + 1 + rng.choice([0, 1, 2, 4])
        return {"t": "spline", "p": p, "P": cpts(rng, n, k == "spline" and rng.chance(0.4)), "U": knots_for(rng, n, p), "per": False, **({"nc": True} if k == "nc" else {})}
    if k == "cubic":
        return {"t": k, **{n: [round(rng.uniform(-4, 4), 3) for _ in range(3)] for n in ("p0", "c0", "c1", "p1")}}
    fam = rng.choice(["helix", "poly"])
    return {"t": k, "fam": fam, "c": coefficients(rng, fam), "iv": rng.choice([[0.0, 1.0], [0.0, 3.0], [-1.0, 2.0], [0.25, 0.75]])}


def between(rng, a, b, kind, n=None):
    """A spline from a to b."""
    p = rng.choice([1, 2, 3, 3])
    n = p + 1 + rng.choice([0, 1, 3])
    P = cpts(rng, n, kind == "spline" and rng.chance(0.3))
    P[0][:3], P[-1][:3] = list(a), list(b)
    return {"t": "spline", "p": p, "P": P, "U": knots_for(rng, n, p), "per": False, "loop": True, **({"nc": True} if kind == "nc" else {})}


def point(rng, m=4):
    return [round(rng.uniform(-m, m), 3) for _ in range(3)]


def compiled(s):
    return bool(s.get("nc")) or s["t"] == "cubic"


def surface(rng, ref, kinds=("ruled", "ruled", "ruled", "coons", "coons", "bil", "user", "user", "cyl", "on", "on", "on")):
    """Curves to be added and a surface."""
    k = rng.choice(list(kinds))
    if k == "ruled":
        new = []
        free = [i for i, s in enumerate(ref.c.s) if not s.get("loop")]
        n = len(ref.c.s)
        q = []
        for _ in range(2):
            left = [i for i in free if i not in q]
            if left and rng.chance(0.35):
                q.append(rng.choice(left))
            else:
                new.append(curve(rng))
                q.append(n + len(new) - 1)
        parts = [ref.c.s[i] if i < n else new[i - n] for i in q]
        return new, {"t": k, "q": q, "how": rng.choice(["c", "c", "make"]) if all(map(compiled, parts)) else "make"}
    if k == "coons":
        p0, p1, p2, p3 = (point(rng) for _ in range(4))
        kind = rng.choice(["spline", "spline", "nc"])
        mixed = rng.chance(0.25)
        pick = lambda: rng.choice(["spline", "nc"]) if mixed else kind  # noqa: E731
        n = len(ref.c.s)
        return [between(rng, p0, p1, pick()), between(rng, p1, p2, pick()), between(rng, p3, p2, pick()), between(rng, p0, p3, pick())], \
            {"t": k, "q": [n, n + 1, n + 2, n + 3]}
    if k == "bil":
        return [], {"t": k, "P": [point(rng) for _ in range(4)], "how": rng.choice(["py", "c"])}
    if k == "user":
        fam = rng.choice(["wavy", "tube", "saddle"])
        iv = rng.choice([[[0.0, 1.0], [0.0, 1.0]], [[0.0, 2.0], [1.0, 3.0]], [[0.5, 1.5], [0.0, 4.0]]])
        return [], {"t": k, "fam": fam, "c": coefficients(rng, fam), "iv": iv}
    if k == "cyl":
        a = point(rng)
        b = point(rng)
        if np.linalg.norm(np.subtract(a, b)) < 0.5:
            b[0] += 2.0
        if rng.chance(0.2):
            b = [a[0] + rng.choice([-2.0, 2.0]), a[1], a[2]]
        return [], {"t": k, "a": a, "b": b, "r": round(rng.uniform(0.3, 3), 3)}
    fit = [j for j, s in enumerate(ref.s) if s["t"] not in ("on",)]
    if not fit:
        return surface(rng, ref, ("user", "coons", "ruled"))
    j = rng.choice(fit)
    (u0, u1), (v0, v1) = ref.domain(j)
    s = ref.s[j]
    how = rng.choice(["free", "u", "v", "iso", "iso", "isou", "isov"])
    if s["t"] == "cyl" or s.get("how") == "c":
        how = "free"
    put = lambda lo, hi: round(lo + rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random()]) * (hi - lo), 4)  # noqa: E731
    o = {"t": "on", "s": j, "how": how}
    if how == "free":
        o["c"] = [round(rng.uniform(0.05, 0.4), 3), round(rng.uniform(0.2, 0.4), 3), round(rng.uniform(-0.2, 0.15), 3),
                  round(rng.uniform(0.05, 0.4), 3), round(rng.uniform(-0.02, 0.3), 3), round(rng.uniform(0.05, 0.25), 3)]
    elif how == "u":
        o["at"] = put(u0, u1)
    elif how == "v":
        o["at"] = put(v0, v1)
    elif how == "isou":
        u = put(u0, u1)
        o["ask"] = [u, u if rng.chance(0.6) else put(u0, u1)]
        o["e"] = [o["ask"][0], v0, o["ask"][1], v1]
    elif how == "isov":
        v = put(v0, v1)
        o["ask"] = [v, v if rng.chance(0.6) else put(v0, v1)]
        o["e"] = [u0, o["ask"][0], u1, o["ask"][1]]
    else:
        ask = [put(u0, u1), put(v0, v1), put(u0, u1), put(v0, v1)]
        ask = [x if rng.chance(0.6) else None for x in ask]
        o["ask"] = ask
        o["e"] = [x if x is not None else d for x, d in zip(ask, (u0, v0, u1, v1))]
        if o["e"][:2] == o["e"][2:]:
            o["ask"] = [None] * 4
            o["e"] = [u0, v0, u1, v1]
    return [], o


def edit(rng, ref):
    """["curve", i, field, value...] or ["surf", k, field, value] or ["loop", k, matrix, shift]"""
    if not ref.c.s or rng.chance(0.3):
        k = rng.randrange(len(ref.s))
        s = ref.s[k]
        if s["t"] == "user":
            return ["surf", k, "c", coefficients(rng, s["fam"])]
        if s["t"] == "cyl":
            f = rng.choice(["a", "b", "r"])
            v = round(rng.uniform(0.3, 3), 3) if f == "r" else point(rng)
            other = {"a": "b", "b": "a"}.get(f)
            if other and np.linalg.norm(np.subtract(v, s[other])) < 0.5:
                return None
            return ["surf", k, f, v]
        if s["t"] == "coons":
            return ["loop", k, [[round(rng.uniform(-1, 1), 3) + (i == j) for j in range(3)] for i in range(3)], point(rng)]
        return None
    i = rng.randrange(len(ref.c.s))
    s = ref.c.s[i]
    if s["t"] == "spline":
        n, p = len(s["P"]), s["p"]
        f = rng.choice(["points", "points", "knots"] + ([] if s.get("nc") else ["weights", "insert", "set"]))
        if f in ("points", "set"):
            m = n if f == "points" else p + 1 + rng.choice([0, 1, 3])
            P = cpts(rng, m, not s.get("nc") and rng.chance(0.4))
            if s.get("loop"):
                P[0][:3], P[-1][:3] = s["P"][0][:3], s["P"][-1][:3]
            if f == "set":
                return ["curve", i, f, P, knots_for(rng, m, p)]
            return ["curve", i, f, [q[:3] for q in P] if s.get("nc") else P]
        if f == "weights":
            return ["curve", i, f, [rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.4, 3), 3)]) for _ in range(n)]]
        if f == "insert":
            lo, hi = ref.c.domain(i)
            return ["curve", i, f, round(lo + rng.uniform(0.05, 0.95) * (hi - lo), 4)]
        return ["curve", i, f, knots_for(rng, n, p)]
    if s["t"] == "func":
        if rng.chance(0.4):
            return ["curve", i, "interval", rng.choice([[0.0, 1.0], [0.0, 2.0], [-0.5, 2.5], [0.25, 0.75]])]
        return ["curve", i, "c", coefficients(rng, s["fam"])]
    return ["curve", i, rng.choice(["p0", "c0", "c1", "p1"]), point(rng)]


def apply_edit(ref, e):
    if e[0] == "curve":
        c22.apply_edit(ref.c, e[1:])
    elif e[0] == "surf":
        ref.s[e[1]][e[2]] = copy.deepcopy(e[3])
    else:
        for i, P in loop_points(ref, e):
            ref.c.s[i]["P"] = P


def loop_points(ref, e):
    out = []
    for i in ref.s[e[1]]["q"]:
        P = ref.c.s[i]["P"]
        moved = (np.array([q[:3] for q in P]) @ np.array(e[2]).T + np.array(e[3])).tolist()
        out.append((i, [m + [q[3]] for m, q in zip(moved, P)]))
    return out


ON_SURFACE = ["at", "at", "at", "at", "v2", "call", "many", "many", "multi", "points", "du", "dv", "du", "dv", "duu", "dvv", "duv", "ders",
              "second", "normal", "normal", "plane", "plane", "domain", "pickle", "tree", "tree", "normals", "corners"]
ON_CURVE = ["at", "at", "call", "many", "points", "domain", "tangent", "normal", "plane", "plane", "der", "length", "length", "tree", "uv"]


def fraction(rng):
    return round(rng.choice([0.0, 1.0, 0.5, 0.25, rng.random(), rng.random(), rng.random(), rng.random()]), 4)


def question(rng, ref):
    n = len(ref.s)
    k = rng.randrange(n) if rng.chance(0.5) else rng.randrange(max(0, n - 2), n)
    q = rng.choice(ON_CURVE if ref.s[k]["t"] == "on" else ON_SURFACE)
    if q in ("many", "multi", "normals"):
        return [q, k, [[fraction(rng), fraction(rng)] for _ in range(rng.choice([1, 2, 3, 6]))]]
    if q == "points":
        return [q, k, [rng.choice([2, 3, 7]), rng.choice([2, 3, 5])]]
    if q == "length":
        a, b = sorted([fraction(rng), fraction(rng)])
        return [q, k, [a, b]]
    if q == "tree":
        return [q, k, rng.choice([[5, 5], [2, 3], [4, 2], [3, 7]])]
    return [q, k, [fraction(rng), fraction(rng)]]


def add(ref, new, s):
    for c in new:
        ref.c.s.append(copy.deepcopy(c))
    ref.s.append(copy.deepcopy(s))


def clone(ref, k):
    """A deep copy of a surface: its curves and itself appended."""
    s = copy.deepcopy(ref.s[k])
    if s["t"] == "on":
        clone(ref, s["s"])
        s["s"] = len(ref.s) - 1
    elif "q" in s:
        n = len(ref.c.s)
        for i in s["q"]:
            ref.c.s.append(copy.deepcopy(ref.c.s[i]))
        s["q"] = list(range(n, n + len(s["q"])))
    ref.s.append(s)


def replay(ref, o):
    if o[0] == "edit":
        apply_edit(ref, o[1])
    elif o[0] == "new":
        add(ref, o[1], o[2])
    elif o[0] == "copy":
        clone(ref, o[1])


def generate(rng, config):
    ref = Weave()
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        new, s = surface(rng, ref)
        objs.append([new, s])
        add(ref, new, s)
    ops = []
    hot = question(rng, ref)
    for _ in range(rng.choice([3, 6, 12, 18])):
        x = rng.random()
        if x < 0.3:
            e = edit(rng, ref)
            if e is None:
                continue
            o = ["edit", e]
        elif x < 0.36 and len(ref.s) < 7:
            o = ["new", *surface(rng, ref)]
        elif x < 0.42 and len(ref.s) < 7:
            o = ["copy", rng.randrange(len(ref.s))]
        else:
            q = copy.deepcopy(hot) if rng.chance(0.35) else question(rng, ref)
            if rng.chance(0.5):
                hot = copy.deepcopy(q)
            o = ["ask", q]
            if config == "faults" and rng.chance(0.5):
                o.append({"kind": rng.choice(["raise", "raise", "nomem", "interrupt", "line", "linemem", "alloc", "alloc"]), "where": round(rng.random(), 4)})
        replay(ref, o)
        ops.append(o)
    case = {"env": base_env(rng), "objs": objs, "ops": ops}
    if config == "concurrent":
        case["ops"] = ops[: rng.choice([0, 2, 5])]
        r = Weave()
        for new, s in objs:
            add(r, new, s)
        for o in case["ops"]:
            replay(r, o)
        hot = question(rng, r)
        case["tasks"] = [[copy.deepcopy(hot) if rng.chance(0.4) else question(rng, r) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
        case["sched"] = pick_sched(rng)
    return case


# ---------------------------------------------------------------- the run

def setup():
    c22.setup()
    import mmcore.geom.nurbs  # noqa: F401
    import mmcore.geom.parametric  # noqa: F401
    import mmcore.geom.primitives  # noqa: F401
    import mmcore.geom.surfaces  # noqa: F401


class Curves(c22.World):
    """The curves of C22, and compiled ones."""

    def add(self, s):
        if not s.get("nc"):
            return super().add(s)
        from mmcore.geom.nurbs import NURBSCurve

        s = copy.deepcopy(s)
        P, U = arr([q[:3] for q in s["P"]]), arr(s["U"])
        o = NURBSCurve(P, s["p"], knots=U)
        P[...], U[...] = 1e7, -3e7
        self.ref.s.append(s)
        self.objs.append(o)

    def edit(self, e):
        if not self.ref.s[e[0]].get("nc"):
            return super().edit(e)
        given = arr(e[2])
        if e[1] == "points":
            self.objs[e[0]].control_points = given
        else:
            self.objs[e[0]].knots = given
        given[...] = 7e6


class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.ref = Weave()
        self.curves = Curves({"objs": []}, ctx)
        self.curves.ref = self.ref.c
        self.objs = []
        self.built = {}
        for new, s in case["objs"]:
            self.add(new, s)

    def add(self, new, s):
        from mmcore.geom import parametric, surfaces as S
        from mmcore.geom.primitives import Cylinder

        for c in new:
            self.curves.add(c)
        s = copy.deepcopy(s)
        t = s["t"]
        if t in ("ruled", "coons"):
            q = [self.curves.objs[i] for i in s["q"]]
            o = (parametric.Ruled if s.get("how") == "c" else S.Ruled)(*q) if t == "ruled" else S.Coons(*q)
        elif t == "bil":
            P = [arr(p) for p in s["P"]]
            o = (parametric.BiLinear if s["how"] == "c" else S.BiLinear)(*P)
            for p in P:
                p[...] = 3e6
        elif t == "cyl":
            a, b = arr(s["a"]), arr(s["b"])
            o = Cylinder(a, b, s["r"])
            a[...] = b[...] = 3e6
        elif t == "user":
            o = user_surface(s)
        else:
            base = self.objs[s["s"]]
            how = s["how"]
            if how == "free":
                c = list(s["c"])
                dom = self.ref.domain(s["s"])

                def fn(t):
                    Tick.tick()
                    f = line(c, t)
                    return np.stack([dom[0][0] + f[..., 0] * (dom[0][1] - dom[0][0]), dom[1][0] + f[..., 1] * (dom[1][1] - dom[1][0])], -1)

                if self.ref.s[s["s"]]["t"] == "cyl":  # its domain changes with its ends
                    dom = [(0.0, 1.0), (0.0, 1.0)]
                    s["unit"] = True
                o = S.CurveOnSurface(base, fn)
            elif how == "u":
                o = base.isoline_u(s["at"])
            elif how == "v":
                o = base.isoline_v(s["at"])
            elif how == "isou":
                o = base.isocurve_u(*s["ask"])
            elif how == "isov":
                o = base.isocurve_v(*s["ask"])
            else:
                o = base.isocurve(**{n: x for n, x in zip(("u0", "v0", "u1", "v1"), s["ask"]) if x is not None})
        self.ref.s.append(s)
        self.objs.append(o)

    def copy(self, k):
        top = copy.deepcopy(self.objs[k])
        n = len(self.ref.s)
        m = len(self.ref.c.s)
        clone(self.ref, k)
        s = self.ref.s[-1]
        o = top.surf if s["t"] == "on" else top
        base = self.ref.s[s["s"]] if s["t"] == "on" else s
        if base["t"] == "ruled":
            self.curves.objs += [o.c0, o.c1] if base.get("how") == "c" else [o.c1, o.c2]
        elif base["t"] == "coons":
            self.curves.objs += [o.c1, o.d1, o.c2, o.d2]
        assert len(self.curves.objs) == len(self.ref.c.s) and m <= len(self.ref.c.s)
        self.objs += [o, top] if s["t"] == "on" else [o]
        assert len(self.objs) == len(self.ref.s) and n < len(self.ref.s)
        for j in range(n, len(self.ref.s)):
            if j != k and k in self.built and self.ref.s[j]["t"] != "on":
                self.built[j] = "stale"

    def edit(self, e):
        if e[0] == "curve":
            self.curves.edit(e[1:])
            touched = [k for k in range(len(self.ref.s)) if self.ref.uses_curve(k, e[1])]
        elif e[0] == "surf":
            o, f, v = self.objs[e[1]], e[2], e[3]
            if f == "c":
                o.c = list(v)
            else:
                v = arr(v) if f != "r" else v
                setattr(o, {"a": "start", "b": "end", "r": "radius"}[f], v)
                if f != "r":
                    v[...] = 3e6
            touched = [k for k in range(len(self.ref.s)) if self.ref.uses(k, e[1])]
        else:
            for i, P in loop_points(self.ref, e):
                P = arr(P)
                self.curves.objs[i].control_points = P[:, :3].copy() if self.ref.c.s[i].get("nc") else P
                P[...] = 7e6
            q = self.ref.s[e[1]]["q"]
            touched = [k for k in range(len(self.ref.s)) if any(self.ref.uses_curve(k, i) for i in q)]
        apply_edit(self.ref, e)
        if e[0] == "curve":
            self.curves.announce(e[1])
        for k in touched:
            self.built[k] = "stale"
            if self.ref.s[k]["t"] == "on":
                self.objs[k].invalidate_cache()

    # -- questions

    def place(self, k, f):
        return [float(lo + x * (hi - lo)) for x, (lo, hi) in zip(f, self.ref.domain(k))]

    def along(self, k, f):
        lo, hi = self.ref.ends(k)
        return float(lo + f * (hi - lo))

    def sensible(self, q):
        ref, k = self.ref, q[1]
        s = ref.s[k]
        if (s["t"] == "on") != (q[0] in ON_CURVE and q[0] not in ON_SURFACE) and q[0] not in set(ON_CURVE) & set(ON_SURFACE):
            return False
        python = s["t"] in ("coons", "user") or s["t"] in ("ruled", "bil") and s["how"] != "c"
        if s["t"] == "on":
            return True
        if q[0] in ("points", "second", "tree"):
            return python
        if q[0] == "multi":
            return True
        if q[0] == "call":
            return python
        if q[0] == "many":
            return python
        if q[0] == "pickle":
            return s.get("how") == "c"
        if q[0] == "normals":
            return not python
        if q[0] == "corners":
            return s["t"] == "coons"
        return True

    def ask(self, q):
        import pickle

        f, k = q[0], q[1]
        o, s = self.objs[k], self.ref.s[k]
        if s["t"] == "on":
            return self.ask_curve(q, o)
        if f in ("many", "multi", "normals"):
            uv = arr([self.place(k, x) for x in q[2]])
            r = (o if f == "many" else o.evaluate_multi if f == "multi" else o.normal_multi)(uv)
            uv[...] = 1e9
            return np.asarray(r)
        if f == "points":
            return np.asarray(o.points(tuple(q[2])))
        if f == "domain":
            return [tuple(map(float, x)) for x in o.interval()]
        if f == "tree":
            fresh = self.built.get(k) == q[2]
            if not fresh and (q[2] != [5, 5] or self.built.get(k) is not None):
                o.build_tree(*q[2])
            self.built[k] = q[2]
            box = o.bounds()
            return patches(o.tree), [np.array(x).tolist() for x in box]
        if f == "corners":
            return np.array([o.pt0, o.pt1, o.pt2, o.pt3], float)
        uv = arr(self.place(k, q[2]))
        if f == "pickle":
            r = pickle.loads(pickle.dumps(o)).evaluate(uv)
        elif f == "v2":
            r = o.evaluate_v2(*map(float, uv))
        elif f == "second":
            r = o.second_derivatives(*map(float, uv))
        else:
            r = {"at": lambda: o.evaluate(uv), "call": lambda: o(uv), "du": lambda: o.derivative_u(uv), "dv": lambda: o.derivative_v(uv),
                 "duu": lambda: o.second_derivative_uu(uv), "dvv": lambda: o.second_derivative_vv(uv), "duv": lambda: o.second_derivative_uv(uv),
                 "ders": lambda: o.derivatives(uv), "normal": lambda: o.normal(uv), "plane": lambda: o.plane_at(uv)}[f]()
        uv[...] = 1e9
        return np.asarray(r)

    def ask_curve(self, q, o):
        f, k = q[0], q[1]
        if f == "domain":
            return [float(x) for x in o.interval()]
        if f == "many":
            return np.asarray(o(arr([self.along(k, x[0]) for x in q[2]])))
        if f == "points":
            return np.asarray(o.points(q[2][0]))
        if f == "length":
            return float(o.evaluate_length((self.along(k, q[2][0]), self.along(k, q[2][1]))))
        if f == "tree":
            return leaves(o.tree)
        t = self.along(k, q[2][0])
        r = {"at": lambda: o.evaluate(t), "call": lambda: o(t), "uv": lambda: o.evaluate_curve(t), "tangent": lambda: o.tangent(t),
             "normal": lambda: o.normal(t), "plane": lambda: o.plane_at(t), "der": lambda: o.derivative(t)}[f]()
        return np.asarray(r)

    # -- answers

    def judge(self, q, got):
        ref, k = self.ref, q[1]
        s = ref.s[k]
        kind = s["t"] + ("." + s["how"] if "how" in s else "")

        def bad(what, exp):
            raise Violation(f"{kind}:{what}", f"{q} of {s} made of {[ref.c.s[i] for i in s.get('q', [])]}: {show(got)}, expected {show(exp)}")

        def near(x, e, tol, what):
            x, e = np.asarray(x, float), np.asarray(e, float)
            self.ctx.checks += 1
            if x.shape != e.shape or not np.all(np.isfinite(x)) or np.any(np.abs(x - e) > tol):
                bad(what, e)

        if s["t"] == "on":
            return self.judge_curve(q, got, bad, near)
        f = q[0]
        dom = ref.domain(k)
        if f == "domain":
            return near(got, dom, 1e-9, f)
        if f in ("many", "multi"):
            uv = arr([self.place(k, x) for x in q[2]])
            e = ref.points(k, uv[:, 0], uv[:, 1])
            return near(got, e, 1e-8 * (1 + np.abs(e).max()), f)
        if f == "points":
            (u0, u1), (v0, v1) = dom
            u, v = np.linspace(u0, u1, q[2][0]), np.linspace(v0, v1, q[2][1])
            U, V = np.meshgrid(u, v, indexing="ij")
            e = ref.points(k, U.ravel(), V.ravel())
            x = np.asarray(got, float)
            if x.size != e.size:
                bad(f, e)
            x = x.reshape(-1, 3)  # in whatever order, every node of the grid once
            left = list(range(len(e)))
            for p in x:
                d = [np.abs(e[j] - p).max() for j in left]
                j = int(np.argmin(d))
                if not d[j] < 1e-7 * (1 + np.abs(e).max()):
                    bad(f, e)
                left.pop(j)
            self.ctx.checks += len(x)
            return
        if f == "corners":
            e = ref.points(k, [0, 1, 1, 0], [0, 0, 1, 1])
            return near(got, e, 1e-8 * (1 + np.abs(e).max()), f)
        if f == "tree":
            return self.judge_tree(q, got, bad, near)
        if f == "normals":
            for x, g in zip(q[2], np.asarray(got).reshape(-1, 3)):
                self.derived("normal", k, self.place(k, x), g, near)
            return
        u, v = self.place(k, q[2])
        if f in ("at", "v2", "call", "pickle"):
            e = ref.points(k, u, v)[0]
            return near(got, e, 1e-8 * (1 + np.abs(e).max()), f)
        self.derived(f, k, (u, v), got, near)

    def derived(self, f, k, uv, got, near):
        ref = self.ref
        u, v = uv
        if not ref.calm(k, u, v):
            return
        P = ref.points(k, u, v)[0]
        Du, Duu, eu, euu = partials(lambda x: ref.points(k, x, v)[0], u)
        Dv, Dvv, ev, evv = partials(lambda x: ref.points(k, u, x)[0], v)
        mixed = lambda x: partials(lambda y: ref.points(k, y, x)[0], u)[0]  # noqa: E731
        h = 1e-3
        Duv = (mixed(v + h) - mixed(v - h)) / (2 * h)
        scale = 1 + max(np.abs(z).max() for z in (P, Du, Dv))
        s2 = scale + max(np.abs(z).max() for z in (Duu, Dvv, Duv))
        e1 = 1e-5 * scale + max(eu, ev)
        e2 = 2e-4 * s2 + 2 * max(euu, evv, eu, ev)
        if f == "du":
            return near(got, Du, e1, f)
        if f == "dv":
            return near(got, Dv, e1, f)
        if f in ("duu", "dvv", "duv"):
            return near(got, {"duu": Duu, "dvv": Dvv, "duv": Duv}[f], e2, f)
        if f == "ders":
            return near(got, [Du, Dv], e1, f)
        if f == "second":
            x = np.asarray(got, float)
            near(x[:3], [P, Du, Dv], e1, f)
            return near(x[3:], [Duu, Dvv, Duv], e2, f)
        n = np.cross(Du, Dv)
        m = np.linalg.norm(n)
        a, b = np.linalg.norm(Du), np.linalg.norm(Dv)
        if min(a, b) < 0.1 or m < 0.1 * a * b:
            return
        tol = 6 * e1 * (a + b) / m + 1e-6
        if tol > 0.2:
            return
        n /= m
        if f == "normal":
            x = np.asarray(got, float)
            w = np.linalg.norm(x)
            if w > 0 and np.isfinite(w):
                x = x / w  # compiled surfaces leave its length
            return near(x, n, tol, f)
        T = Du / a
        near(got, [P, T, np.cross(n, T), n], tol + 1e-8 * scale, f)

    def judge_tree(self, q, got, bad, near):
        ref, k = self.ref, q[1]
        quads, box = got
        (u0, u1), (v0, v1) = ref.domain(k)
        nu, nv = q[2]
        gu, gv = np.linspace(u0, u1, nu), np.linspace(v0, v1, nv)
        if len(quads) != (nu - 1) * (nv - 1):
            bad("tree.count", (nu - 1) * (nv - 1))
        cells = set()
        for uvs, pts in quads:
            uvs, pts = np.array(uvs), np.array(pts)
            i = int(np.argmin(np.abs(gu - uvs[:, 0].min())))
            j = int(np.argmin(np.abs(gv - uvs[:, 1].min())))
            if i == nu - 1 or j == nv - 1:
                bad("tree.cell", "a cell of the grid")
            cells.add((i, j))
            near(sorted(uvs.tolist()), sorted([[gu[i], gv[j]], [gu[i + 1], gv[j]], [gu[i + 1], gv[j + 1]], [gu[i], gv[j + 1]]]), 1e-9, "tree.uv")
            e = ref.points(k, uvs[:, 0], uvs[:, 1])
            near(pts, e, 1e-8 * (1 + np.abs(e).max()), "tree.points")
            if np.any(e < np.array(box[0]) - 1e-7) or np.any(e > np.array(box[1]) + 1e-7):
                bad("tree.box", e)
        if len(cells) != len(quads):
            bad("tree.twice", "every cell once")

    def judge_curve(self, q, got, bad, near):
        ref, k = self.ref, q[1]
        f = q[0]
        lo, hi = ref.ends(k)
        at = lambda t: self.trace(k, t)  # noqa: E731
        if f == "domain":
            return near(got, (lo, hi), 1e-9, f)
        if f in ("at", "call", "many", "points"):
            ts = np.linspace(lo, hi, q[2][0]) if f == "points" else arr([self.along(k, x[0]) for x in q[2]]) if f == "many" else arr([self.along(k, q[2][0])])
            e = at(ts)
            x = np.asarray(got, float)
            return near(x.reshape(-1, 3) if f in ("at", "call") and x.size == 3 else x, e, 1e-8 * (1 + np.abs(e).max()), f)
        if f == "uv":
            return near(got, self.uv(k, self.along(k, q[2][0]))[0], 1e-9 * 10, f)
        if f == "tree":
            segs, box = got
            segs = sorted(segs, key=lambda x: x[1][0])
            near([segs[0][1][0]] + [t[1] for _, t in segs][-1:], [lo, hi], 1e-9, "tree.domain")
            for (_, a), (_, b) in zip(segs, segs[1:]):
                near(a[1], b[0], 1e-9, "tree.gap")
            for side in (0, 1):
                e = at(arr([t[side] for _, t in segs]))
                near(arr([p[side] for p, _ in segs]), e, 1e-8 * (1 + np.abs(e).max()), "tree.points")
                if np.any(e < np.array(box[0]) - 1e-7) or np.any(e > np.array(box[1]) + 1e-7):
                    bad("tree.box", e)
            return
        if f == "length":
            a, b = self.along(k, q[2][0]), self.along(k, q[2][1])
            base = ref.s[ref.s[k]["s"]]
            if any(c22.World.has_corner(self.curves, i) for i in base.get("q", [])):
                return
            if b - a < 1e-9:
                return near(got, 0.0, 1e-6, f)
            L = np.linalg.norm(np.diff(at(np.linspace(a, b, 3001)), axis=0), axis=1).sum()
            if abs(got - L) > 3e-2 * (1 + L) and c22.settles_early(Track(self, k), 0, a, b, 1e-3):
                return
            return near(got, L, 3e-2 * (1 + L), f)
        t = self.along(k, q[2][0])
        if min(t - lo, hi - t) < 1e-2 or min(abs(t), abs(t - 1)) < 5e-3:
            return
        base = ref.s[k]["s"]
        for d in (-2e-3, 0.0, 2e-3):
            u, v = self.uv(k, t + d)[0]
            inside = [(u, v)]
            for x, y in inside:
                dom = ref.domain(base)
                # along the edge itself the parameter across does not move
                cu = min(max(x, dom[0][0] + 5e-3), dom[0][1] - 5e-3) if abs(self.uv(k, t + 1e-2)[0][0] - x) < 1e-12 else x
                cv = min(max(y, dom[1][0] + 5e-3), dom[1][1] - 5e-3) if abs(self.uv(k, t + 1e-2)[0][1] - y) < 1e-12 else y
                if f in ("normal", "plane"):
                    cu, cv = x, y
                if not ref.calm(base, cu, cv, 5e-3):
                    return
        p = at(t)[0]
        D, _, e, _ = partials(lambda x: at(x)[0], t)
        scale = 1 + max(np.abs(p).max(), np.abs(D).max())
        e1 = 1e-5 * scale + e
        if f == "der":
            return near(got, D, e1, f)
        sp = np.linalg.norm(D)
        if sp < 0.1:
            return
        T = D / sp
        tol = 6 * e1 / sp
        if tol > 0.1:
            return
        if f == "tangent":
            return near(got, T, tol, f)
        u, v = self.uv(k, t)[0]
        Du, _, eu, _ = partials(lambda x: ref.points(base, x, v)[0], u)
        Dv, _, ev, _ = partials(lambda x: ref.points(base, u, x)[0], v)
        n = np.cross(Du, Dv)
        m, a, b = np.linalg.norm(n), np.linalg.norm(Du), np.linalg.norm(Dv)
        if min(a, b) < 0.1 or m < 0.1 * a * b:
            return
        tol += 6 * (1e-5 * scale + eu + ev) * (a + b) / m
        if tol > 0.1:
            return
        n /= m
        side = np.cross(n, T)
        if f == "normal":
            return near(got, side, 3 * tol, f)
        near(got, [p, T, side, n], 3 * tol + 1e-8 * scale, f)

    def uv(self, k, t):
        s = self.ref.s[k]
        if s.get("unit"):
            return line(s["c"], np.atleast_1d(np.asarray(t, float)))
        return self.ref.uv(k, t)

    def trace(self, k, t):
        p = self.uv(k, t)
        return self.ref.points(self.ref.s[k]["s"], p[:, 0], p[:, 1])


class Track:
    """A curve on a surface, as what settles_early asks of."""

    def __init__(self, world, k):
        self.world, self.k = world, k

    def points(self, i, t):
        return self.world.trace(self.k, t)

    def table(self, i, lo, hi):
        t = np.linspace(lo, hi, 3001)
        return t, np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(self.points(0, t), axis=0), axis=1))])


def user_surface(s):
    from mmcore.geom.surfaces import Surface

    class Sheet(Surface):
        def __init__(self, fam, c, iv):
            self.fam, self.c, self.iv = fam, c, iv
            super().__init__()

        def interval(self):
            return tuple(tuple(x) for x in self.iv)

        def evaluate(self, uv):
            Tick.tick()
            return sheet(self.fam, self.c, uv[0], uv[1])

    return Sheet(s["fam"], list(s["c"]), copy.deepcopy(s["iv"]))


def patches(root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        if n is None:
            continue
        objs = n.object if isinstance(n.object, (list, tuple)) else [] if n.object is None else [n.object]
        for x in objs:
            out.append((np.array(x.uvs, float).tolist(), np.array(x.pts, float).tolist()))
        stack += [n.left, n.right]
    return out


def execute(case, ctx):
    setup()
    Tick.reset()
    w = World(case, ctx)
    for o in case["ops"]:
        step(w, ctx, o)
    if "tasks" in case:
        c22.together(case, ctx, Shown(w))
    for k in range(len(w.objs)):
        for q in (["domain", k, [0, 0]], ["at", k, [0.31, 0.77]], ["many", k, [[0.0, 0.0], [1.0, 0.4], [0.62, 1.0]]], ["multi", k, [[0.13, 0.0], [1.0, 0.4]]]):
            if w.sensible(q):
                w.judge(q, w.ask(q))


class Shown:
    """The world as C22's tasks see it."""

    def __init__(self, w):
        self.w, self.objs, self.sensible, self.ask, self.judge, self.ref = w, w.objs, w.sensible, w.ask, w.judge, w.ref


def step(w, ctx, o):
    if o[0] == "new":
        w.add(o[1], o[2])
        ctx.count("made." + o[2]["t"])
        return
    if o[0] == "copy":
        w.copy(o[1])
        ctx.count("copied." + w.ref.s[-1]["t"])
        return
    if o[0] == "edit":
        w.edit(o[1])
        ctx.count("edit." + o[1][0])
        ctx.event("edit", *o[1][:3])
        return
    q = o[1]
    if not w.sensible(q):
        return
    if len(o) > 2:
        failing(w, ctx, q, o[2])
    got = w.ask(q)
    keep = freeze(got)
    w.judge(q, keep)
    scribble(got)
    ctx.count("asked." + q[0])
    ctx.event(q[0], q[1], show(keep))
    s = w.ref.s[q[1]]
    ctx.state(repr([s, [w.ref.c.s[i] for i in s.get("q", [])]])[:300], q[0], show(keep)[:200])


def failing(w, ctx, q, f):
    kind = f["kind"]
    built = dict(w.built)
    if kind == "alloc":
        a = Alloc()
        with a.fail_at(1 + int(f["where"] * 12)):
            box, _ = c22.attempt(ctx, lambda: w.ask(q))
        if a.fired:
            ctx.fault("allocation_refused")
            if box[0] == "value":  # it got by without
                w.judge(q, freeze(box[1]))
    else:
        Tick.reset()
        real, w.objs = w.objs, copy.deepcopy(w.objs)
        try:
            box, n = c22.attempt(ctx, lambda: w.ask(q))
        except Violation as e:
            if e.sig != "no-progress":
                raise
            ctx.count("too_long_to_interrupt")
            return
        finally:
            w.objs = real
            w.built = dict(built)
        calls = Tick.calls
        if kind in ("raise", "nomem", "interrupt"):
            if not calls:
                return
            Tick.reset(1 + min(int(f["where"] * calls), calls - 1), kind)
            box, _ = c22.attempt(ctx, lambda: w.ask(q))
            if Tick.raised is None:
                Tick.reset()
                return
            ctx.fault("function_" + kind)
            ctx.check(box[0] == "error" and box[1] is Tick.raised, "fault:swallowed",
                      lambda: f"{q} of {w.ref.s[q[1]]}: the function's {Tick.raised!r} came out as {show(box)}")
        else:
            if not n:
                return
            faults = [{"task": 0, "at": 1 + min(int(f["where"] * n), n - 1), "kind": "interrupt" if kind == "line" else "nomem"}]
            box, _ = c22.attempt(ctx, lambda: w.ask(q), faults)
            ctx.fault("line_" + ("interrupt" if kind == "line" else "nomem"))
    if box[0] == "error":
        if not isinstance(box[1], (sched.Injected, MemoryError, KeyboardInterrupt)):
            raise exception_violation(box[1])
        w.built = built
        w.built[q[1]] = "stale" if q[0] == "tree" else w.built.get(q[1])
        if w.built[q[1]] is None:
            w.built.pop(q[1])
    Tick.reset()
