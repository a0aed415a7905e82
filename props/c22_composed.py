"""C22: curves made of curves, functions and numbers, and curves that are edited, against closed formulas for what they are now."""
import copy
import math
import operator

from props._curvesim import Alloc
from props._nurbs import default_knots
from props._util import *
from sim import sched
from sim.core import exception_violation

PROP = "C22"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 3000, "seconds": 45, "timeout": 150}, "thorough": {"seeds": 100000, "seconds": 420, "timeout": 150}}
STATES = "distinct (kind of curve, what it is made of now, question, answer) tuples"
REAL = ["mmcore.geom.curves.bspline.NURBSpline and mmcore.geom.curves._nurbs", "mmcore.geom.curves.curve (trimmed, combined, "
        "reparametrised and user-written curves)", "mmcore.geom.curves.offset.OffsetCurve", "mmcore.geom.curves.cubic.CubicSpline",
        "mmcore.geom.curves.Circle", "mmcore.geom.circle.Circle2D", "mmcore.geom.curves.knot (split and insertion of a spline)"]
STUB = ["functions written by a user of the library as curves and terms: they may raise or be preempted",
        "numpy's array makers: one of them refuses memory"]
ASSUMPTIONS = ["whoever edits a curve in place calls invalidate_cache on it and on the curves made of it (a spline does so itself)",
               "derivatives are judged inside the domain, away from knots and from 0 and 1, where the library changes its difference formula",
               "knots and control points that do not fit together are not assigned"]

OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
BASIC = ("spline", "func", "circle", "circle2d", "cubic")


# ---------------------------------------------------------------- the formulas

def family(fam, c, t):
    """The user's functions, for one parameter or an array of them."""
    t = np.asarray(t, float)
    one = np.ones_like(t)
    if fam == "helix":
        return np.stack([c[0] * np.cos(c[3] * t) + c[1], c[0] * np.sin(c[3] * t) + c[2], c[4] * t], -1)
    if fam == "poly":
        return np.stack([c[0] * t + c[1], c[2] * t ** 2 + c[3] * one, c[4] * t ** 3 - t], -1)
    if fam == "wave":
        return np.stack([c[0] * t + c[1], c[2] * np.sin(c[3] * t + c[4])], -1)
    if fam == "arc":
        return np.stack([c[0] * np.cos(t) + c[1], c[2] * np.sin(t) + c[3]], -1)
    raise AssertionError(fam)


def coefficients(rng, fam):
    big = lambda: rng.choice([-1, 1]) * round(rng.uniform(0.6, 3), 3)  # noqa: E731
    return [big(), round(rng.uniform(-4, 4), 3), big(), round(rng.uniform(0.7, 1.8), 3), big()]


class Ref:
    """What every curve of the pool is, by its own parameters."""

    def __init__(self):
        self.s = []

    def dim(self, i):
        s = self.s[i]
        if s["t"] in ("circle", "circle2d"):
            return 2
        if s["t"] == "func":
            return 3 if s["fam"] in ("helix", "poly") else 2
        return self.dim(s["a"]) if "a" in s else 3

    def uses(self, i, j):
        s = self.s[i]
        return i == j or any(k in s and self.uses(s[k], j) for k in ("a", "b"))

    def has(self, i, *kinds):
        s = self.s[i]
        return s["t"] in kinds or any(k in s and self.has(s[k], *kinds) for k in ("a", "b"))

    def domain(self, i):
        s = self.s[i]
        t = s["t"]
        if t == "spline":
            return float(s["U"][s["p"]]), float(s["U"][len(s["P"])])
        if t in ("func", "circle"):
            return tuple(s["iv"])
        if t == "circle2d":
            return 0.0, 2 * math.pi
        if t in ("cubic", "arc"):
            return 0.0, 1.0
        if t == "trim":
            return s["lo"], s["hi"]
        if t == "both":
            a, b = self.domain(s["a"]), self.domain(s["b"])
            return max(a[0], b[0]), min(a[1], b[1])
        return self.domain(s["a"])

    def dead(self, i):
        s = self.s[i]
        return "dead" in s or any(k in s and self.dead(s[k]) for k in ("a", "b"))

    def outside(self, i):
        """Does a trimmed curve reach beyond what it was cut from (which has been edited since)?"""
        s = self.s[i]
        if s["t"] == "trim":
            lo, hi = self.domain(s["a"])
            if s["lo"] < lo or s["hi"] > hi:
                return True
        return any(k in s and self.outside(s[k]) for k in ("a", "b"))

    def rough(self, i):
        s = self.s[i]
        if s["t"] == "spline":
            return [float(u) for u in s["U"]]
        if s["t"] == "arc":
            return []
        return sum((self.rough(s[k]) for k in ("a", "b") if k in s), [])

    def exact(self, i):
        """Are derivatives computed from formulas, not from differences?"""
        s = self.s[i]
        return s["t"] in ("spline", "cubic") or s["t"] == "trim" and self.exact(s["a"])

    def ders(self, i, t):
        """Points, first and second derivatives at an array of parameters."""
        s = self.s[i]
        t = np.atleast_1d(np.asarray(t, float))
        if s["t"] == "trim":
            return self.ders(s["a"], t)
        if s["t"] == "spline":
            from scipy.interpolate import BSpline

            H = np.array(s["P"], float)
            H[:, :3] *= H[:, 3:]
            b = BSpline(np.array(s["U"], float), H, s["p"])
            A, A1, A2 = b(t), b(t, 1), b(t, 2)
            w = A[:, 3:]
            C = A[:, :3] / w
            D = (A1[:, :3] - A1[:, 3:] * C) / w
            return C, D, (A2[:, :3] - 2 * A1[:, 3:] * D - A2[:, 3:] * C) / w
        h = 1e-3
        f = self.points
        m2, m1, o, p1, p2 = (f(i, t + k * h) for k in (-2, -1, 0, 1, 2))
        return o, (m2 - 8 * m1 + 8 * p1 - p2) / (12 * h), (-m2 + 16 * m1 - 30 * o + 16 * p1 - p2) / (12 * h * h)

    def points(self, i, t):
        s = self.s[i]
        k = s["t"]
        t = np.atleast_1d(np.asarray(t, float))
        if k == "spline":
            return self.ders(i, t)[0]
        if k == "func":
            return family(s["fam"], s["c"], t)
        if k in ("circle", "circle2d"):
            return np.stack([s["o"][0] + s["r"] * np.cos(t), s["o"][1] + s["r"] * np.sin(t)], -1)
        if k == "cubic":
            u = 1 - t
            w = [u ** 3, 3 * t * u ** 2, 3 * t ** 2 * u, t ** 3]
            return sum(np.outer(a, s[n]) for a, n in zip(w, ("p0", "c0", "c1", "p1")))
        if k == "trim":
            return self.points(s["a"], t)
        if k == "value":
            return OPS[s["op"]](self.points(s["a"], t), np.asarray(s["v"], float))
        if k == "call":
            return OPS[s["op"]](self.points(s["a"], t), term(s["c"], self.dim(i), t))
        if k == "both":
            return OPS[s["op"]](self.points(s["a"], t), self.points(s["b"], t))
        if k == "offset":
            o, d1, d2 = self.ders(s["a"], t)
            T = d1 / np.linalg.norm(d1, axis=1)[:, None]
            n = d2 - T * np.sum(T * d2, axis=1)[:, None]
            return o + s["d"] * n / np.linalg.norm(n, axis=1)[:, None]
        raise AssertionError(k)

    def well(self, i, t):
        """For an offset: is the normal well defined at all of these?"""
        s = self.s[i]
        if s["t"] == "trim":
            return self.well(s["a"], t)
        if s["t"] != "offset":
            return True
        t = np.atleast_1d(np.asarray(t, float))
        for u in self.rough(s["a"]):
            if np.any(np.abs(t - u) < 1e-6) and self.s[s["a"]]["p"] < 3:
                return False
        if not self.exact(s["a"]) and np.any((np.abs(t) < 3e-3) | (np.abs(t - 1) < 3e-3)):
            return False
        _, d1, d2 = self.ders(s["a"], t)
        sp = np.linalg.norm(d1, axis=1)
        if np.any(sp < 0.05):
            return False
        n = d2 - d1 * (np.sum(d1 * d2, axis=1) / sp ** 2)[:, None]
        return bool(np.all(np.linalg.norm(n, axis=1) > 0.05 * np.linalg.norm(d2, axis=1) + 1e-3))

    def slack(self, i):
        """How far the library's own differences may take an offset from the formula."""
        s = self.s[i]
        if s["t"] == "offset":
            return 1e-6 if self.exact(s["a"]) else 2e-2 * (1 + abs(s["d"]))
        return max([1e-9] + [self.slack(s[k]) for k in ("a", "b") if k in s])

    def table(self, i, lo, hi):
        """Parameters and lengths along the curve."""
        t = np.linspace(lo, hi, 3001)
        inner = [u for u in self.rough(i) if lo < u < hi]
        t = np.unique(np.concatenate([t, inner]))
        q = self.points(i, t)
        L = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(q, axis=0), axis=1))])
        return t, L


def settles_early(ref, i, a, b, tol):
    """Do three successive refinements of the integral of the speed agree although none is the length? Rare (the speed
    at five places happens to fit a simple curve), and what the tolerance of an adaptive rule has always meant."""
    cut = [a, *range(math.ceil(a), math.floor(b) + 1), b] if b - a > 4 else [a, b]
    for lo, hi in zip(cut[:-1], cut[1:]):
        if hi - lo < 1e-9:
            continue
        prev, agreed = None, 0
        for level in range(7):
            t = np.linspace(lo, hi, 2 ** level + 1)
            h = (hi - lo) / 1e6
            x = np.clip(t, lo + h, hi - h)
            v = np.linalg.norm(ref.points(i, x + h) - ref.points(i, x - h), axis=1) / (2 * h)
            row = [np.trapezoid(v, t)]
            for j in range(1, level + 1):
                row.append((4 ** j * row[-1] - prev[j - 1]) / (4 ** j - 1))
            agreed = agreed + 1 if level > 1 and abs(row[-1] - prev[-1]) < 2 * tol else 0
            if agreed > 1:
                if abs(row[-1] - ref.table(i, lo, hi)[1][-1]) > 1e-2 * (1 + row[-1]):
                    return True
                break
            prev = row
    return False


def term(c, dim, t):
    """A term written as a function: positive everywhere, so that one can divide by it."""
    t = np.asarray(t, float)
    return np.stack([2.0 + abs(c[k]) + np.sin(c[k] * t) for k in range(dim)], -1)


# ---------------------------------------------------------------- the cases

def knots_for(rng, n, p):
    k = n - p - 1
    style = rng.choice(["default", "default", "unit", "random", "shifted"])
    if style == "default":
        return default_knots(n, p).tolist()
    a, b = (0.0, 1.0) if style == "unit" else rng.choice([(0.0, 1.0), (-2.0, 1.0), (0.0, 4.0), (0.5, 2.5)])
    if style == "random":
        inner = sorted(round(a + (b - a) * (j + 1 + rng.uniform(-0.3, 0.3)) / (k + 1), 5) for j in range(k))
    else:
        inner = [a + (b - a) * (j + 1) / (k + 1) for j in range(k)]
    return [a] * (p + 1) + inner + [b] * (p + 1)


def cpts(rng, n, weighted):
    out = []
    for _ in range(n):
        q = [round(rng.uniform(-5, 5), 3) for _ in range(3)]
        out.append(q + [rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.4, 3), 3)]) if weighted else 1.0])
    return out


def basic(rng, kind=None):
    k = kind or rng.choice(["spline", "spline", "spline", "func", "func", "circle", "circle2d", "cubic"])
    if k == "spline":
        p = rng.choice([1, 2, 3, 3, 4])
        n = p + 1 + rng.choice([0, 1, 2, 4])
        per = rng.chance(0.15) and n > p
        return {"t": k, "p": p, "P": cpts(rng, n, rng.chance(0.5)), "U": None if per else knots_for(rng, n, p), "per": per}
    if k == "func":
        fam = rng.choice(["helix", "helix", "poly", "wave", "arc"])
        return {"t": k, "fam": fam, "c": coefficients(rng, fam), "iv": rng.choice([[0.0, 1.0], [0.0, 3.0], [-1.0, 2.0], [0.25, 0.75], [0.0, 6.5]])}
    if k == "cubic":
        return {"t": k, **{n: [round(rng.uniform(-4, 4), 3) for _ in range(3)] for n in ("p0", "c0", "c1", "p1")}}
    o = [round(rng.uniform(-3, 3), 3) for _ in range(2)]
    return {"t": k, "r": round(rng.uniform(0.5, 3), 3), "o": o, **({"iv": [0.0, 1.0]} if k == "circle" else {})}


def periodic(s):
    """A spline closed on itself: what the constructor makes of its points."""
    p, P = s["p"], s["P"]
    s["P"] = P + P[:p]
    s["U"] = [float(x) for x in range(-p, len(s["P"]) + 1)]


def derived(rng, ref):
    n = len(ref.s)
    for _ in range(12):
        k = rng.choice(["trim", "value", "value", "call", "call", "both", "both", "offset", "offset", "arc"])
        a = rng.randrange(n)
        t = ref.s[a]["t"]
        if k == "trim":
            if t == "cubic" or t == "arc":
                continue
            lo, hi = ref.domain(a)
            if not lo < hi:
                continue
            x, y = sorted([rng.uniform(0, 1), rng.uniform(0, 1)])
            if y - x < 0.1:
                continue
            return {"t": k, "a": a, "lo": round(lo + x * (hi - lo), 4), "hi": round(lo + y * (hi - lo), 4)}
        if ref.has(a, "offset", "arc") or t == "cubic" and k != "offset":
            continue
        if k == "value":
            v = [round(rng.uniform(0.5, 3), 3) for _ in range(ref.dim(a))]
            return {"t": k, "a": a, "op": rng.choice(list(OPS)), "v": v if rng.chance(0.7) else v[0]}
        if k == "call":
            return {"t": k, "a": a, "op": rng.choice(list(OPS)), "c": [round(rng.uniform(0.5, 2), 3) for _ in range(3)]}
        if k == "both":
            fit = [j for j in range(n) if ref.dim(j) == ref.dim(a) and ref.s[j]["t"] != "cubic" and not ref.has(j, "offset", "arc")]
            fit = [j for j in fit if min(ref.domain(a)[1], ref.domain(j)[1]) - max(ref.domain(a)[0], ref.domain(j)[0]) > 0.05]
            if not fit:
                continue
            return {"t": k, "a": a, "b": rng.choice(fit), "op": rng.choice(["add", "sub", "mul"])}
        if k == "offset":
            if t == "spline" and ref.s[a]["p"] > 1 or t == "cubic" or t == "func" and ref.s[a]["fam"] == "helix":
                return {"t": k, "a": a, "d": round(rng.uniform(-2, 2), 3)}
        if k == "arc" and (t == "spline" and ref.s[a]["p"] > 1 and not ref.s[a]["per"] or t in ("func", "circle", "circle2d")):
            return {"t": k, "a": a}
    return None


def edit(rng, ref):
    i = rng.randrange(len(ref.s))
    s = ref.s[i]
    t = s["t"]
    if t == "spline":
        n, p = len(s["P"]), s["p"]
        f = rng.choice(["points", "points", "weights", "knots", "set", "periodic", "open", "insert", "bad_weights"])
        if s["per"]:
            f = rng.choice(["open", "open", "weights"])  # both keep what they are given in step
            if f == "weights":
                f = "points"
        if f == "points":
            w = any(q[3] != 1.0 for q in s["P"])
            P = cpts(rng, n, w)
            if s["per"]:
                P = P[:n - p] + P[:p]
            return [i, f, P if w or rng.chance(0.3) else [q[:3] for q in P]]
        if f == "weights":
            return [i, f, [rng.choice([1.0, 0.5, 2.0, round(rng.uniform(0.4, 3), 3)]) for _ in range(n)]]
        if f == "bad_weights":
            return [i, f, [1.5] * (n + 1)]
        if f == "knots":
            return [i, f, knots_for(rng, n, p)]
        if f == "set":
            m = p + 1 + rng.choice([0, 1, 3])
            return [i, f, cpts(rng, m, rng.chance(0.5)), knots_for(rng, m, p)]
        if f == "insert":
            lo, hi = ref.domain(i)
            return [i, f, round(lo + rng.uniform(0.05, 0.95) * (hi - lo), 4)]
        if f == "periodic":
            if n <= p or all(s["P"][j] == s["P"][n - p + j] for j in range(p)):
                return None
            return [i, f]
        return [i, "open"]
    if t == "func":
        if rng.chance(0.3):
            lo, hi = s["iv"]
            return [i, "extend", rng.choice([0.0, 0.5]), rng.choice([0.25, 1.0])] if rng.chance(0.5) else \
                [i, "interval", rng.choice([[0.0, 1.0], [0.0, 2.0], [-0.5, 2.5], [0.25, 0.75]])]
        return [i, "c", coefficients(rng, s["fam"])]
    if t in ("circle", "circle2d"):
        return [i, "r", round(rng.uniform(0.5, 3), 3)] if rng.chance(0.5) else [i, "o", [round(rng.uniform(-3, 3), 3) for _ in range(2)]]
    if t == "cubic":
        return [i, rng.choice(["p0", "c0", "c1", "p1"]), [round(rng.uniform(-4, 4), 3) for _ in range(3)]]
    if t == "trim":
        lo, hi = ref.domain(s["a"])
        w = hi - lo
        if not w > 0:
            return None
        f = rng.choice(["start", "end"])
        if f == "start" and lo < s["hi"] - 0.05 * w:
            return [i, f, round(rng.uniform(lo, s["hi"] - 0.05 * w), 4)]
        if f == "end" and hi > s["lo"] + 0.05 * w:
            return [i, f, round(rng.uniform(s["lo"] + 0.05 * w, hi), 4)]
        return None
    if t == "value":
        return [i, "v", [round(rng.uniform(0.5, 3), 3) for _ in range(ref.dim(i))]] if rng.chance(0.7) else [i, "op", rng.choice(list(OPS))]
    if t == "offset":
        return [i, "d", round(rng.uniform(-2, 2), 3)]
    return None


def apply_edit(ref, e):
    """The edit, carried out on the reference."""
    i, f, v = e[0], e[1], e[2] if len(e) > 2 else None
    s = ref.s[i]
    for j, x in enumerate(ref.s):
        if x["t"] == "arc" and ref.uses(j, i):
            x["dead"] = True  # the table of lengths was made once
    if s["t"] == "spline":
        if f == "points":
            s["P"] = [list(q) + [1.0] * (4 - len(q)) for q in v]
        elif f == "weights":
            s["P"] = [q[:3] + [w] for q, w in zip(s["P"], v)]
        elif f == "knots":
            s["U"] = list(v)
        elif f == "set":
            s["P"], s["U"] = copy.deepcopy(v), list(e[3])
        elif f == "insert":
            from scipy.interpolate import BSpline

            H = np.array(s["P"], float)
            H[:, :3] *= H[:, 3:]
            b = BSpline(np.array(s["U"], float), H, s["p"])
            from scipy.interpolate import insert

            c = [insert(v, (b.t, np.concatenate([H[:, k], np.zeros(s["p"] + 1)]), s["p"])) for k in range(4)]
            m = len(s["P"]) + 1
            Q = np.stack([x[1][:m] for x in c], -1)
            Q[:, :3] /= Q[:, 3:]
            s["P"], s["U"] = Q.tolist(), [float(u) for u in c[0][0]]
        elif f == "periodic":
            periodic(s)
            s["per"] = True
        elif f == "open" and s["per"]:
            n = len(s["P"]) - s["p"]
            s["P"], s["U"], s["per"] = s["P"][:n], default_knots(n, s["p"]).tolist(), False
    elif f == "extend":
        s["iv"] = [s["iv"][0] - v, s["iv"][1] + e[3]]
    elif f == "interval":
        s["iv"] = list(v)
    elif f in ("start", "end"):
        s["lo" if f == "start" else "hi"] = v
    else:
        s[f] = copy.deepcopy(v)


QUESTIONS = ["at", "at", "at", "call", "many", "points", "der", "der", "der2", "tangent", "normal", "curvature", "plane", "planes",
             "length", "length", "tree", "tree", "split", "domain", "remap", "read", "pickle", "end"]


def question(rng, ref, slow=True):
    n = len(ref.s)
    i = rng.randrange(n) if rng.chance(0.5) else rng.randrange(max(0, n - 3), n)
    k = rng.choice(QUESTIONS)
    if slow and rng.chance(0.04):
        k = "reach"
    f = round(rng.choice([0.0, 1.0, 0.5, 0.25, rng.random(), rng.random(), rng.random()]), 4)
    if k in ("many", "planes"):
        return [k, i, [round(rng.random(), 4) for _ in range(rng.choice([1, 2, 3, 6]))]]
    if k == "points":
        return [k, i, rng.choice([2, 3, 7, 50])]
    if k == "length":
        a, b = sorted([rng.choice([0.0, round(rng.random(), 3)]), rng.choice([1.0, round(rng.random(), 3)])])
        return [k, i, [a, b], rng.choice([1e-3, 1e-3, 1e-5])]
    if k == "der" and rng.chance(0.2):
        return ["ders", i, f, rng.choice([1, 2, 3])]
    return [k, i, f]


def generate(rng, config):
    ref = Ref()
    objs = []

    def add(s):
        if s is None:
            return
        objs.append(copy.deepcopy(s))
        s = copy.deepcopy(s)
        if s["t"] == "spline" and s["per"]:
            periodic(s)
        ref.s.append(s)

    first = rng.choice([None, None, "spline", "func"])
    for j in range(rng.choice([1, 2, 3])):
        add(basic(rng, first if j == 0 else None))
    for _ in range(rng.choice([0, 1, 2, 4])):
        add(derived(rng, ref))
    ops = []
    hot = question(rng, ref)
    for _ in range(rng.choice([3, 6, 12, 18])):
        x = rng.random()
        if x < 0.3:
            e = edit(rng, ref)
            if e is None:
                continue
            apply_edit(ref, e)
            o = ["edit", e]
            if config == "faults" and rng.chance(0.4):
                o.append({"kind": rng.choice(["alloc", "alloc", "line"]), "where": round(rng.random(), 4)})
            if rng.chance(0.35) and len(ref.s) < 8:  # what was made of it before the edit is made once more
                old = [j for j, s in enumerate(ref.s) if s["t"] in ("arc", "offset", "value", "call") and ref.uses(j, e[0])]
                old = [j for j in old if not ref.has(ref.s[j]["a"], "arc")]
                if old:
                    s = {k: v for k, v in copy.deepcopy(ref.s[rng.choice(old)]).items() if k != "dead"}
                    ops.append(o)
                    ref.s.append(copy.deepcopy(s))
                    ops.append(["new", s])
                    for _ in range(40):
                        q = question(rng, ref)
                        if q[1] == len(ref.s) - 1:
                            ops.append(["ask", q])
                            break
                    continue
        elif x < 0.36 and len(ref.s) < 8:
            s = derived(rng, ref)
            if s is None:
                continue
            ref.s.append(copy.deepcopy(s))
            o = ["new", s]
        elif x < 0.42 and len(ref.s) < 8:
            i = rng.randrange(len(ref.s))
            if ref.has(i, "arc"):
                continue
            clone(ref, i)
            o = ["copy", i]
        else:
            q = copy.deepcopy(hot) if rng.chance(0.35) else question(rng, ref)  # the same question again, after edits
            if rng.chance(0.5):
                hot = copy.deepcopy(q)
            o = ["ask", q]
            if config == "faults" and q[0] not in ("reach",) and rng.chance(0.5):
                o.append({"kind": rng.choice(["raise", "raise", "nomem", "interrupt", "line", "linemem", "alloc"]), "where": round(rng.random(), 4)})
        ops.append(o)
    case = {"env": base_env(rng), "objs": objs, "ops": ops}
    if config == "concurrent":
        case["ops"] = ops[: rng.choice([0, 2, 5])]
        # the pool at that point decides what can be asked
        r = Ref()
        for s in objs:
            s = copy.deepcopy(s)
            if s["t"] == "spline" and s["per"]:
                periodic(s)
            r.s.append(s)
        for o in case["ops"]:
            if o[0] == "edit":
                apply_edit(r, o[1])
            elif o[0] == "new":
                r.s.append(copy.deepcopy(o[1]))
            elif o[0] == "copy":
                clone(r, o[1])
        hot = question(rng, r, False)
        tasks = []
        for _ in range(rng.choice([2, 2, 3])):
            tasks.append([copy.deepcopy(hot) if rng.chance(0.4) else question(rng, r, False) for _ in range(rng.choice([1, 2, 3]))])
        case["tasks"] = tasks
        case["sched"] = pick_sched(rng)
    return case


def clone(ref, i):
    """The parts of a deep copy, appended in the order in which they are met. Returns their places."""
    memo = {}

    def go(j):
        if j in memo:
            return memo[j]
        s = copy.deepcopy(ref.s[j])
        for k in ("a", "b"):
            if k in s:
                s[k] = go(s[k])
        ref.s.append(s)
        memo[j] = len(ref.s) - 1
        return memo[j]

    go(i)
    return memo


# ---------------------------------------------------------------- the run

def setup():
    import scipy.interpolate  # noqa: F401
    import mmcore.geom.curves.bspline  # noqa: F401
    import mmcore.geom.curves.cubic  # noqa: F401
    import mmcore.geom.curves.curve  # noqa: F401
    import mmcore.geom.curves.knot  # noqa: F401
    import mmcore.geom.curves.offset  # noqa: F401
    import mmcore.geom.circle  # noqa: F401
    import mmcore.geom.bvh  # noqa: F401


class Tick:
    calls = 0
    fail_at = 0
    kind = "raise"
    raised = None

    @classmethod
    def reset(cls, fail_at=0, kind="raise"):
        cls.calls, cls.fail_at, cls.kind, cls.raised = 0, fail_at, kind, None

    @classmethod
    def tick(cls):
        cls.calls += 1
        if cls.calls == cls.fail_at:
            cls.raised = sched.make_exception({"raise": "callback"}.get(cls.kind, cls.kind))
            raise cls.raised
        sched.here()


class Fun:
    """A curve's formula, written by a user; its coefficients can be changed."""

    def __init__(self, fam, c):
        self.fam, self.c = fam, c

    def __call__(self, t):
        Tick.tick()
        return family(self.fam, self.c, t)


class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.ref = Ref()
        self.objs = []
        for s in case["objs"]:
            self.add(s)

    def add(self, s):
        from mmcore.geom import curves as C
        from mmcore.geom.circle import Circle2D
        from mmcore.geom.curves import curve as M
        from mmcore.geom.curves.bspline import NURBSpline
        from mmcore.geom.curves.cubic import CubicSpline
        from mmcore.geom.curves.offset import OffsetCurve

        s = copy.deepcopy(s)
        t = s["t"]
        made = False
        if t == "spline":
            P = arr(s["P"])
            if np.all(P[:, 3] == 1.0):
                P = P[:, :3].copy()
            U = None if s["per"] else arr(s["U"])
            o = NURBSpline(P, degree=s["p"], knots=U, periodic=s["per"])
            P[...] = 1e7  # the arrays handed in are the caller's
            if U is not None:
                U[...] = -3e7
            if s["per"]:
                periodic(s)
        elif t == "func":
            f = Fun(s["fam"], list(s["c"]))
            o = M.parametric_curve(tuple(s["iv"]))(f)
        elif t == "circle":
            o = C.Circle(s["r"], arr(s["o"]))
        elif t == "circle2d":
            o = Circle2D(arr(s["o"]), s["r"])
        elif t == "cubic":
            o = CubicSpline(*[arr(s[n]) for n in ("p0", "c0", "c1", "p1")])
        else:
            a = self.objs[s["a"]]
            if t == "trim":
                o = M.TrimmedCurve(a, s["lo"], s["hi"])
            elif t == "value":
                o = OPS[s["op"]](a, arr(s["v"]) if isinstance(s["v"], list) else s["v"])
            elif t == "call":
                c, dim = list(s["c"]), self.ref.dim(s["a"])

                def fn(t):
                    Tick.tick()
                    return term(c, dim, t)

                o = OPS[s["op"]](a, fn)
            elif t == "both":
                o = OPS[s["op"]](a, self.objs[s["b"]])
            elif t == "offset":
                o = OffsetCurve(a, s["d"])
            elif t == "arc":
                o = M.ArcLengthParameterization(a)
                lo, hi = self.ref.domain(s["a"])
                s["table"] = self.ref.table(s["a"], lo, hi)
        self.ref.s.append(s)
        self.objs.append(o)

    def copy(self, i):
        top = copy.deepcopy(self.objs[i])
        memo = clone(self.ref, i)
        placed = {}

        def go(j, o):
            placed[memo[j]] = o
            s = self.ref.s[memo[j]]
            old = self.ref.s[j]
            if "a" in s:
                go(old["a"], o.first if s["t"] in ("value", "call", "both") else o.curve)
            if "b" in s:
                go(old["b"], o.second)

        go(i, top)
        for k in sorted(placed):
            assert k == len(self.objs)
            self.objs.append(placed[k])

    def edit(self, e):
        from mmcore.geom.curves.knot import insert_knot

        i, f, v = e[0], e[1], e[2] if len(e) > 2 else None
        o, t = self.objs[i], self.ref.s[i]["t"]
        given = []
        if t == "spline":
            if f == "points":
                given = [arr(v)]
                o.control_points = given[0]
            elif f in ("weights", "bad_weights"):
                given = [arr(v)]
                o.weights = given[0]
            elif f == "knots":
                given = [arr(v)]
                o.knots = given[0]
            elif f == "set":
                given = [arr(v), arr(e[3])]
                o.set(*given)
            elif f == "insert":
                insert_knot(o, v)
            elif f == "periodic":
                o.make_periodic()
            elif f == "open":
                o.make_open()
            for g in given:
                g[...] = 7e6
        elif f == "extend":
            o.extend(v, e[3])
        elif f == "interval":
            o.set_interval(tuple(v))
        elif f in ("start", "end"):
            setattr(o, f, v)
        elif t == "func":
            o.func.c = list(v)
        elif t in ("circle", "circle2d"):
            setattr(o, {"r": "r", "o": "origin"}[f], arr(v) if f == "o" else v)
        elif t == "cubic":
            setattr(o, f, arr(v))
        elif t == "value":
            if f == "op":
                o.operator = OPS[v]
            else:
                o.second = arr(v)
        elif t == "offset":
            o.offset = v

    def announce(self, i):
        """What the editor of a curve owes the curves made of it."""
        for j, o in enumerate(self.objs):
            if self.ref.uses(j, i) and self.ref.s[j]["t"] not in ("cubic", "arc") and not (j == i and self.ref.s[j]["t"] in ("spline", "offset")):
                o.invalidate_cache()

    # -- questions

    def place(self, i, f):
        lo, hi = self.ref.domain(i)
        return float(lo + f * (hi - lo))

    def sensible(self, q):
        """Can this be asked of this curve, as it is now?"""
        k, i = q[0], q[1]
        t = self.ref.s[i]["t"]
        dim = self.ref.dim(i)
        lo, hi = self.ref.domain(i)
        if not hi - lo > 1e-3:
            return False
        if self.ref.outside(i):
            return False
        root = self.ref.s[i]
        while root["t"] == "trim":
            root = self.ref.s[root["a"]]
        if self.ref.has(i, "offset") and k not in ("at", "call", "many", "points", "domain", "read", "split", "remap", "tree"):
            return False
        if self.ref.dead(i):
            return False
        if t == "arc" or self.ref.has(i, "arc"):
            return k in ("at", "many", "points", "domain", "call")
        if t == "cubic" and k in ("length", "tree", "split", "reach", "remap", "ders"):
            return False
        if k in ("plane", "planes") and dim == 2:
            return False
        if k == "points" and root["t"] == "spline" and root["p"] == 1:
            return False  # a polyline hands out its own corners
        if k == "normal" and root["t"] == "circle2d":
            return False  # the normal of the region, not of the curve
        if k in ("pickle", "end", "ders"):
            return t == "spline" or t == "cubic" and k != "ders"
        if k in ("length", "reach") and self.has_corner(i):
            return False
        if k == "reach" and self.ref.table(i, lo, hi)[1][-1] < 0.1:
            return False
        return True

    def has_corner(self, i):
        s = self.ref.s[i]
        if s["t"] == "spline":
            mult = max([list(s["U"]).count(u) for u in s["U"] if s["U"][0] < u < s["U"][-1]] or [0])
            return s["p"] - mult < 1 if mult else s["p"] == 1 and len(s["P"]) > 2
        return any(self.has_corner(s[k]) for k in ("a", "b") if k in s)

    def ask(self, q):
        import pickle

        k, i = q[0], q[1]
        o = self.objs[i]
        if k == "at":
            return np.asarray(o.evaluate(self.place(i, q[2])))
        if k == "call":
            return np.asarray(o(self.place(i, q[2]))).reshape(-1)
        if k == "many":
            ts = arr([self.place(i, f) for f in q[2]])
            r = np.asarray(o(ts))
            return r.reshape(len(ts), -1)
        if k == "points":
            return np.asarray(o.points(q[2]))
        if k == "der":
            return np.asarray(o.derivative(self.place(i, q[2])))
        if k == "ders":
            t = self.place(i, q[2])
            return np.asarray(o.derivatives1(t, q[3])), np.asarray(o.derivatives2(t, q[3]))
        if k == "der2":
            return np.asarray(o.second_derivative(self.place(i, q[2])))
        if k in ("tangent", "normal", "curvature"):
            return np.asarray(getattr(o, k)(self.place(i, q[2])))
        if k == "plane":
            return np.asarray(o.plane_at(self.place(i, q[2])))
        if k == "planes":
            return np.asarray(o.planes_at(arr([self.place(i, f) for f in q[2]])))
        if k == "length":
            return float(o.evaluate_length((self.place(i, q[2][0]), self.place(i, q[2][1])), q[3]))
        if k == "reach":
            lo, hi = self.ref.domain(i)
            t, L = self.ref.table(i, lo, hi)
            want = float(L[-1] * (0.02 + 0.95 * q[2]))
            return want, float(o.evaluate_parameter_at_length(want))
        if k == "tree":
            return leaves(o.tree)
        if k == "split":
            t = self.place(i, 0.05 + 0.9 * q[2])
            a, b = o.split(t)
            out = []
            for c in (a, b):
                x, y = c.interval()
                u = [x + f * (y - x) for f in (0.0, 0.3, 0.8, 1.0)]
                out.append((u, [np.array(c.evaluate(float(v))) for v in u]))
            return t, out
        if k == "domain":
            return [float(x) for x in o.interval()]
        if k == "remap":
            return float(o.normalize_param(self.place(i, q[2]))), float(o.remap_param(q[2]))
        if k == "read":
            return self.read(i)
        if k == "pickle":
            c = pickle.loads(pickle.dumps(o))
            return [np.array(c.evaluate(self.place(i, f))) for f in (0.0, q[2], 1.0)], [float(x) for x in c.interval()]
        if k == "end":
            return np.array(o.start()), np.array(o.end()), bool(o.is_closed())
        raise AssertionError(k)

    def read(self, i):
        o, s = self.objs[i], self.ref.s[i]
        t = s["t"]
        if t == "spline":
            return {"P": np.array(o.control_points), "w": np.array(o.weights), "U": np.array(o.knots), "p": int(o.degree), "per": bool(o.periodic),
                    "g": np.array(o.greville_abscissae)}
        if t == "trim":
            return {"lo": float(o.start), "hi": float(o.end)}
        if t == "offset":
            return {"d": float(o.offset)}
        if t in ("circle", "circle2d"):
            return {"r": float(o.r), "o": np.array(o.origin, float)}
        if t == "cubic":
            return {n: np.array(getattr(o, n)) for n in ("p0", "c0", "c1", "p1")}
        return {}

    # -- answers

    def judge(self, q, got):
        ctx, ref = self.ctx, self.ref
        k, i = q[0], q[1]
        s = ref.s[i]
        kind = s["t"]
        dim = ref.dim(i)

        def bad(what, exp):
            raise Violation(f"{kind}:{what}", f"{q} of {brief(s)}: {show(got)}, expected {show(exp)}")

        def near(x, e, tol, what):
            x, e = np.asarray(x, float), np.asarray(e, float)
            ctx.checks += 1
            if x.shape != e.shape or not np.all(np.isfinite(x)) or np.any(np.abs(x - e) > tol):
                bad(what, e)

        if ref.has(i, "arc"):
            if k == "domain":
                near(got, ref.domain(i), 1e-9, "domain")
                return
            self.judge_arc(q, got, bad)
            return
        if k in ("at", "call", "many", "points"):
            if k == "points":
                lo, hi = ref.domain(i)
                ts = np.linspace(lo, hi, q[2])
            else:
                ts = arr([self.place(i, f) for f in (q[2] if k == "many" else [q[2]])])
            good = np.array([ref.well(i, [t]) for t in ts])
            if not good.any():
                return
            exp = np.full((len(ts), dim), np.nan)
            exp[good] = ref.points(i, ts[good])
            x = np.asarray(got, float).reshape(-1, dim) if np.size(got) == exp.size else None
            if x is None or k in ("many", "points") and np.shape(got) != exp.shape:
                bad(k, exp)
            tol = ref.slack(i) * (10 + np.abs(exp[good]).max())
            near(x[good], exp[good], tol, k)
            return
        if k == "domain":
            near(got, ref.domain(i), 1e-9, k)
            return
        if k == "remap":
            near(got, [q[2], self.place(i, q[2])], 1e-9 * 10, k)
            return
        if k == "read":
            for n, v in got.items():
                if n == "g":
                    p, U = s["p"], s["U"]
                    e = [sum(U[j + 1:j + 1 + p]) / p for j in range(len(s["P"]))]
                elif kind == "spline":
                    e = {"P": [x[:3] for x in s["P"]], "w": [x[3] for x in s["P"]]}.get(n, s.get(n))
                else:
                    e = s[n]
                near(v, e, 1e-9 * 10, "read." + n)
            return
        if k == "pickle":
            near(got[0], ref.points(i, [self.place(i, f) for f in (0.0, q[2], 1.0)]), 1e-7, k)
            near(got[1], ref.domain(i), 1e-9, k)
            return
        if k == "end":
            lo, hi = ref.domain(i)
            e = ref.points(i, [lo, hi])
            near(got[0], e[0], 1e-7, "start")
            near(got[1], e[1], 1e-7, "end")
            gap = np.abs(e[0] - e[1]).max()
            if not 0.5e-7 < gap < 2e-7 and got[2] != (gap < 1e-7):
                bad("closed", gap < 1e-7)
            return
        if k == "split":
            t, parts = got
            lo, hi = ref.domain(i)
            for (u, pts), (a, b) in zip(parts, ((lo, t), (t, hi))):
                near([u[0], u[-1]], [a, b], 1e-9, "split.domain")
                ok = np.array([ref.well(i, [v]) for v in u])
                if ok.any():
                    e = ref.points(i, arr(u)[ok])
                    near(np.array(pts, float)[ok], e, max(ref.slack(i), 1e-8) * (10 + np.abs(e).max()), "split")
            return
        if k == "tree":
            self.judge_tree(q, got, bad, near)
            return
        if k == "length":
            a, b = self.place(i, q[2][0]), self.place(i, q[2][1])
            if b - a < 1e-9:
                near(got, 0.0, 1e-6, k)
                return
            L = ref.table(i, a, b)[1][-1]
            if abs(got - L) > 3e-2 * (1 + L) and settles_early(ref, i, a, b, q[3]):
                return
            near(got, L, 3e-2 * (1 + L), k)
            return
        if k == "reach":
            want, t = got
            lo, hi = ref.domain(i)
            T, L = ref.table(i, lo, hi)
            grid = np.linspace(lo, hi, 100)
            at = np.interp(want, np.interp(grid, T, L), grid)  # a table with a hundred places
            off = abs(np.interp(at, T, L) - want)
            if not lo - 1e-9 <= t <= hi + 1e-9 or abs(np.interp(t, T, L) - want) > 1.5 * off + 5e-3 * (1 + L[-1]):
                bad(k, at)
            return
        # derivatives
        t = self.place(i, q[2]) if not isinstance(q[2], list) else None
        for t in ([t] if t is not None else [self.place(i, f) for f in q[2]]):
            lo, hi = ref.domain(i)
            exact = ref.exact(i)
            rough = min([abs(t - u) for u in ref.rough(i) if exact and u not in (lo, hi) or not exact] or [1.0])
            if rough < 5e-3 or not exact and (min(t - lo, hi - t) < 1e-2 or min(abs(t), abs(t - 1)) < 5e-3):
                return
        ts = [self.place(i, f) for f in (q[2] if isinstance(q[2], list) else [q[2]])]
        P, D1, D2 = ref.ders(i, ts)
        scale = 1 + np.abs(np.concatenate([P, D1, D2])).max()
        if exact and kind != "cubic":
            e1 = e2 = 1e-7 * scale
        else:
            root = 1e-6 if kind == "cubic" else 1e-2
            e1, e2 = root * scale, 6 * root * scale  # backward differences where the parameter is beyond 1
        if k == "der":
            near(got, D1[0], e1, k)
        elif k == "der2":
            near(got, D2[0], e2, k)
        elif k == "ders":
            C = [P[0], D1[0], D2[0]]
            for x in got:
                m = min(3, len(x))
                if len(x) != min(q[3], s["p"]) + 1:
                    bad(k, "rows")
                near(x[:m], C[:m], 1e-6 * scale, k)
        else:
            sp = np.linalg.norm(D1, axis=1)
            if np.any(sp < 0.1) or e1 > 0.02 * sp.min():
                return
            T = D1 / sp[:, None]
            n = D2 - T * np.sum(T * D2, axis=1)[:, None]
            m = np.linalg.norm(n, axis=1)
            tol = 4 * e1 / sp.min()
            if k == "tangent":
                near(got, T[0], tol, k)
                return
            if k == "curvature":
                near(got, n[0] / sp[0] ** 2, (e2 + 4 * tol * np.abs(D2).max()) / sp[0] ** 2, k)
                return
            if np.any(m < 20 * e2) or np.any(m < 0.02):
                return
            N = n / m[:, None]
            tol = tol + 4 * (e2 + tol * np.abs(D2).max()) / m.min()
            if tol > 0.3:
                return
            if k == "normal":
                near(got, N[0], tol, k)
            else:
                e = np.stack([P, T, N, np.cross(T, N)], 1)
                near(got, e[0] if k == "plane" else e, tol + 1e-7 * scale, k)

    def judge_tree(self, q, got, bad, near):
        ref, i = self.ref, q[1]
        lo, hi = ref.domain(i)
        segs, box = got
        segs = sorted(segs, key=lambda x: x[1][0])
        ts = [segs[0][1][0]] + [t[1] for _, t in segs]
        near([ts[0], ts[-1]], [lo, hi], 1e-9, "tree.domain")
        for (_, a), (_, b) in zip(segs, segs[1:]):
            near(a[1], b[0], 1e-9, "tree.gap")
        tt = arr([t for _, t in segs])
        for side in (0, 1):
            ok = np.array([ref.well(i, [t]) for t in tt[:, side]])
            if not ok.any():
                continue
            e = ref.points(i, tt[ok, side])
            x = arr([p[side] for p, _ in segs])[ok]
            near(x[:, :ref.dim(i)], e, ref.slack(i) * (10 + np.abs(e).max()), "tree.points")
            if ref.dim(i) == 2 and np.any(x[:, 2:] != 0):
                bad("tree.flat", 0)
            x = x[:, :3]
            if np.any(x < np.array(box[0]) - 1e-9) or np.any(x > np.array(box[1]) + 1e-9):
                bad("tree.box", box)

    def judge_arc(self, q, got, bad):
        ref, i = self.ref, q[1]
        k = q[0]
        arc = i
        while ref.s[arc]["t"] != "arc":
            arc = ref.s[arc]["a"]
        T, L = ref.s[arc]["table"]
        base = ref.s[arc]["a"]
        lo, hi = ref.domain(i)
        ss = np.linspace(lo, hi, q[2]) if k == "points" else arr([self.place(i, f) for f in (q[2] if k == "many" else [q[2]])])
        x = np.asarray(got, float)
        if x.size != len(ss) * ref.dim(i):
            bad(k, "a point each")
        x = x.reshape(len(ss), -1)
        grid = np.linspace(T[0], T[-1], 100)
        lv = np.interp(grid, T, L)
        sg = np.linspace(0, 1, 100)
        tg = np.interp(np.linspace(lv[0], lv[-1], 100), lv, grid)
        for s, p in zip(ss, x):
            off = abs(np.interp(np.interp(s, sg, tg), T, L) / L[-1] - s)
            w = 1.5 * off + 4e-3
            a, b = np.interp([s - w, s + w], L / L[-1], T)
            u = np.linspace(a, b, 60)
            c = ref.points(base, u)
            step = np.linalg.norm(np.diff(c, axis=0), axis=1).max()
            if not np.all(np.isfinite(p)) or np.linalg.norm(c - p, axis=1).min() > step + 1e-6:
                bad(k, ref.points(base, np.interp(s, L / L[-1], T)))


def leaves(root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        if n is None:
            continue
        objs = n.object if isinstance(n.object, (list, tuple)) else [] if n.object is None else [n.object]
        for x in objs:
            out.append(([np.array(p, float).tolist() for p in x.pts], [float(t) for t in x.t]))
        stack += [n.left, n.right]
    b = root.bounding_box
    return out, (np.array(b.min_point).tolist(), np.array(b.max_point).tolist())


def brief(s):
    return {k: v for k, v in s.items() if k != "table"}


def show(x):
    return repr(x)[:500]


def freeze(got):
    if isinstance(got, np.ndarray):
        return got.copy()
    if isinstance(got, tuple):
        return tuple(freeze(x) for x in got)
    return got


def scribble(got):
    """What the library hands out belongs to the caller, who may write to it."""
    for x in got if isinstance(got, tuple) else [got]:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 1e9


def execute(case, ctx):
    setup()
    Tick.reset()
    w = World(case, ctx)
    for o in case["ops"]:
        step(w, ctx, o)
    if "tasks" in case:
        together(case, ctx, w)
    for i in range(len(w.objs)):  # at the end every curve still is what the history made it
        for q in (["read", i, 0.0], ["many", i, [0.0, 0.31, 0.77, 1.0]]):
            if w.sensible(q):
                w.judge(q, w.ask(q))


def step(w, ctx, o):
    f = o[-1] if isinstance(o[-1], dict) and o[0] != "new" else None
    if o[0] == "new":
        s = o[1]
        if any(s[k] >= len(w.objs) for k in ("a", "b") if k in s):
            return
        lo, hi = (w.ref.domain(s["a"]) if "a" in s else (0, 1))
        if not hi > lo or s["t"] == "arc" and (w.has_corner(s["a"]) or w.ref.s[s["a"]]["t"] == "spline" and w.ref.s[s["a"]]["per"]):
            return
        w.add(s)
        ctx.count("made." + s["t"])
        return
    if o[0] == "copy":
        if o[1] < len(w.objs) and not w.ref.has(o[1], "arc"):
            w.copy(o[1])
            ctx.count("copied." + w.ref.s[o[1]]["t"])
        return
    if o[0] == "edit":
        e = o[1]
        if e[0] >= len(w.objs):
            return
        if f and failing_edit(w, ctx, e, f):
            return
        if e[1] == "bad_weights":
            try:
                w.edit(e)
            except ValueError:
                pass
            else:
                raise Violation("spline:bad_weights", "weights for more points than there are were taken")
        else:
            w.edit(e)
            apply_edit(w.ref, e)
            w.announce(e[0])
        ctx.count("edit." + e[1])
        ctx.event("edit", *e[:2])
        return
    q = o[1]
    if q[1] >= len(w.objs) or not w.sensible(q):
        return
    if f:
        failing(w, ctx, q, f)
    got = w.ask(q)
    keep = freeze(got)
    w.judge(q, keep)
    scribble(got)
    ctx.count("asked." + q[0])
    ctx.event(q[0], q[1], show(keep))
    ctx.state(repr(brief(w.ref.s[q[1]]))[:200], q[0], show(keep)[:200])


def attempt(ctx, fn, faults=()):
    box = []

    def body():
        try:
            box.append(("value", fn()))
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, sched.Aborted):
                raise
            box.append(("error", e))

    _, err, n, _ = sched.run_single(ctx, body, faults=faults, limit=3_000_000)
    if err is not None and not box:
        raise exception_violation(err)
    return box[0], n


def failing(w, ctx, q, f):
    """The question is interrupted once; what it leaves behind must not show."""
    kind = f["kind"]
    if kind == "alloc":
        a = Alloc()
        with a.fail_at(1 + int(f["where"] * 12)):
            box, _ = attempt(ctx, lambda: w.ask(q))
        if a.fired:
            ctx.fault("allocation_refused")
    else:
        # how often is the user's code called, how many lines are there? asked of a copy of the world as it is
        Tick.reset()
        probe = copy.deepcopy(w.objs)
        real, w.objs = w.objs, probe
        try:
            box, n = attempt(ctx, lambda: w.ask(q))
        except Violation as e:
            if e.sig != "no-progress":
                raise
            ctx.count("too_long_to_interrupt")  # asked plainly below, against the clock
            return
        finally:
            w.objs = real
        calls = Tick.calls
        if kind in ("raise", "nomem", "interrupt"):
            if not calls:
                return
            Tick.reset(1 + min(int(f["where"] * calls), calls - 1), kind)
            box, _ = attempt(ctx, lambda: w.ask(q))
            if Tick.raised is None:
                Tick.reset()
                return  # answered from what it remembered
            ctx.fault("function_" + kind)
            ctx.check(box[0] == "error" and box[1] is Tick.raised, "fault:swallowed",
                      lambda: f"{q}: the function's {Tick.raised!r} came out as {show(box)}")
        else:
            if not n:
                return
            faults = [{"task": 0, "at": 1 + min(int(f["where"] * n), n - 1), "kind": "interrupt" if kind == "line" else "nomem"}]
            box, _ = attempt(ctx, lambda: w.ask(q), faults)
    if box[0] == "error" and not isinstance(box[1], (sched.Injected, MemoryError, KeyboardInterrupt)):
        raise exception_violation(box[1])
    Tick.reset()


def failing_edit(w, ctx, e, f):
    """An edit that fails leaves the curve as it was, or (where it got that far) as it should be."""
    i = e[0]
    if w.ref.s[i]["t"] != "spline" or e[1] == "bad_weights":
        return
    if f["kind"] == "alloc":
        a = Alloc()
        with a.fail_at(1 + int(f["where"] * 8)):
            box, _ = attempt(ctx, lambda: w.edit(e))
        fired = a.fired
        if fired:
            ctx.fault("allocation_refused_in_edit")
    else:
        box, n = attempt(ctx, lambda: w.edit(e), [{"task": 0, "at": 1 + int(f["where"] * 10), "kind": "interrupt"}])
        fired = box[0] == "error"
    if box[0] == "error":
        if not isinstance(box[1], (sched.Injected, MemoryError, KeyboardInterrupt)):
            raise exception_violation(box[1])
        if fired and f["kind"] == "line":
            ctx.fault("edit_interrupted")
    after = Ref()
    after.s = copy.deepcopy(w.ref.s)
    apply_edit(after, e)
    before = w.ref
    found = None
    for r in ([before, after] if box[0] == "error" else [after]):
        w.ref = r
        try:
            for q in (["read", i, 0.0], ["many", i, [0.0, 0.31, 0.77, 1.0]], ["at", i, 0.5], ["at", i, 0.25], ["domain", i, 0]):
                w.judge(q, w.ask(q))
            found = r
            break
        except Violation as v:
            last = v
    if found is None:
        w.ref = before
        raise Violation("spline:half-edited", f"{e} that failed ({show(box[1])}) left neither the old nor the new curve: {last}")
    if found is after:
        w.ref = before
        apply_edit(before, e)
        w.announce(i)
    w.ref = before
    return found is after and e[1] in ("insert", "periodic", "set")  # carried out again it would be another edit


def together(case, ctx, w):
    log = []

    def task(qs):
        def go():
            for q in qs:
                if q[1] < len(w.objs) and w.sensible(q):
                    got = w.ask(q)
                    log.append((q, freeze(got)))
                    scribble(got)
        return go

    ts = run_tasks(case, ctx, [task(t) for t in case["tasks"]], limit=40_000_000)
    for t in ts:
        if t.error is not None:
            raise exception_violation(t.error)
    for q, got in log:
        w.judge(q, got)
        ctx.event("task", q[0], q[1], show(got))
        ctx.state(repr(brief(w.ref.s[q[1]]))[:200], q[0], show(got)[:200])
