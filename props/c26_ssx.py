"""C26: two NURBS surfaces are intersected completely: every branch, each polyline near both surfaces, ends where it must."""
import importlib

import numpy as np
from scipy.interpolate import BSpline
from scipy.spatial import cKDTree
from scipy.spatial.transform import Rotation

from props import _asks
from props._nurbs import default_knots
from props._util import *

PROP = "C26"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "concurrent", "faults"]
PLAN = {"quick": {"seeds": 900, "seconds": 60, "timeout": 90}, "thorough": {"seeds": 20000, "seconds": 400, "timeout": 90}}
STATES = "distinct (question, answer) pairs and interleavings"
REAL = ["mmcore.numeric.intersection.ssx", "mmcore.numeric.gauss_map", "mmcore.numeric.intersection.csx", "mmcore.numeric.algorithms.point_inversion",
        "mmcore.geom.nurbs", "mmcore.geom.curves.bspline.interpolate_nurbs_curve", "mmcore.geom.surfaces.CurveOnSurface"]
STUB = []
ASSUMPTIONS = ["the surfaces are fields of heights over overlapping rectangles, both facing roughly up, and cross at a clear angle where a crossing is demanded",
               "nearness is judged at a few hundredths of the size of the surfaces, as coarse as the recorded curves of the repository's own tests need"]

M = {}


def setup():
    for k, n in [("nurbs", "geom.nurbs"), ("ssx", "numeric.intersection.ssx"), ("gm", "numeric.gauss_map"),
                 ("ss", "numeric.intersection.ssx.surface_surface"), ("csx", "numeric.intersection.csx")]:
        M[k] = importlib.import_module("mmcore." + n)


# -- scenes ----------------------------------------------------------------------------------------------------------
def greville(n, p):
    k = np.array(default_knots(n, p), float)
    return np.array([k[i + 1:i + p + 1].mean() for i in range(n)]), k


def field(rng, small):
    p = [rng.choice([1, 2, 3, 3]), rng.choice([1, 2, 3, 3])] if small else [rng.choice([2, 3, 3]), rng.choice([2, 3, 3])]
    n = [x + 1 for x in p]
    lo = [round(rng.uniform(-2.4, -1.6), 2) for _ in "xy"]
    hi = [round(rng.uniform(1.6, 2.4), 2) for _ in "xy"]
    if small and rng.chance(0.5):  # a plane
        a, b, c = (rng.uniform(-.35, .35) for _ in "abc")
        z = [[round(a * i / max(n[0] - 1, 1) + b * j / max(n[1] - 1, 1) + c, 4) for j in range(n[1])] for i in range(n[0])]
    else:
        amp = 0.6 if small else 1.0
        z = [[round(rng.uniform(-amp, amp), 3) for _ in range(n[1])] for _ in range(n[0])]
    return {"p": p, "n": n, "lo": lo, "hi": hi, "z": z, "r": 0.0}


def scene(rng):
    for i in range(200):
        s = try_scene(rng)
        z, ang, _ = crossings(s, 40)
        if len(z) == 0 if i == 0 else len(z) > 12 and ang.min() > ANGLE:
            return s
    return s


def try_scene(rng):
    s = {"a": field(rng, False), "b": field(rng, rng.chance(0.4)), "q": [0.0, 0.0, 0.0], "o": [0.0, 0.0, 0.0], "k": rng.choice([1.0, 1.0, 3.0, 10.0])}
    s["b"]["r"] = round(rng.uniform(0.05, 1.52) + rng.randrange(4) * np.pi / 2, 3)  # isolines along one another's are left out
    if rng.chance(0.15):  # apart
        s["b"]["z"] = [[x + 4.0 for x in r] for r in s["b"]["z"]]
    if rng.chance(0.5):
        s["o"] = [round(rng.uniform(-20, 20), 1) for _ in "xyz"]
    if rng.chance(0.5):
        t = 0.25 * rng.random()
        ax = rng.uniform(0, 6.28)
        tilt = Rotation.from_rotvec([t * np.cos(ax), t * np.sin(ax), 0])
        s["q"] = [round(float(x), 4) for x in (tilt * Rotation.from_rotvec([0, 0, rng.uniform(-3, 3)])).as_rotvec()]
    if rng.chance(0.5):
        # the same surfaces in several pieces
        s["more"] = [[w, rng.choice("uv"), round(rng.uniform(0.2, 0.8), 2)] for w in rng.choice(["a", "b", "ab"])]
    if rng.chance(0.4):
        s["a"], s["b"] = s["b"], s["a"]
    return s


def place(s, P):
    return s["k"] * (Rotation.from_rotvec(s["q"]).apply(np.asarray(P, float).reshape(-1, 3)) + np.array(s["o"]))


def unplace(s, P):
    return Rotation.from_rotvec(s["q"]).inv().apply(np.asarray(P, float).reshape(-1, 3) / s["k"] - np.array(s["o"]))


def build(s, w):
    f = s[w]
    x = [f["lo"][i] + (f["hi"][i] - f["lo"][i]) * greville(f["n"][i], f["p"][i])[0] / greville(f["n"][i], f["p"][i])[1][-1] for i in (0, 1)]
    X, Y = np.meshgrid(*x, indexing="ij")
    X, Y = turn(X, Y, f["r"])
    P = place(s, np.stack([X, Y, np.array(f["z"])], -1)).reshape(*f["n"], 3)
    out = M["nurbs"].NURBSSurface(P, tuple(f["p"]))
    for which, d, t in s.get("more", []):
        if which == w:
            t0, t1 = out.interval()["uv".index(d)]
            (out.insert_knot_u if d == "u" else out.insert_knot_v)(t0 + (t1 - t0) * t, 1)
    return out


def turn(x, y, r):
    return x * np.cos(r) - y * np.sin(r), x * np.sin(r) + y * np.cos(r)


def height(f, x, y):
    """The height of the field over a point, from the definition, and how far inside its rectangle the point is."""
    x, y = turn(np.asarray(x, float).ravel(), np.asarray(y, float).ravel(), -f["r"])
    lo, hi = np.array(f["lo"]), np.array(f["hi"])
    inside = np.minimum(np.minimum(x - lo[0], hi[0] - x), np.minimum(y - lo[1], hi[1] - y))
    if not x.size:
        return x, inside
    z = np.array(f["z"])
    for i, t in enumerate((x, y)):
        k = greville(f["n"][i], f["p"][i])[1]
        t = np.clip((t - lo[i]) / (hi[i] - lo[i]) * k[-1], 0, k[-1])
        B = BSpline.design_matrix(t, k, f["p"][i]).toarray()
        z = np.einsum("ki,ij->kj" if i == 0 else "kj,kj->k", B, z)
    return z, inside


def crossings(s, m=100):
    """Points of the true intersection (local frame), the angle of the surfaces there and how far inside both it is."""
    t = np.linspace(-3.4, 3.4, m)
    X, Y = np.meshgrid(t, t, indexing="ij")
    (za, ia), (zb, ib) = height(s["a"], X, Y), height(s["b"], X, Y)
    D, I = (za - zb).reshape(m, m), np.minimum(ia, ib).reshape(m, m)
    g = np.hypot(*np.gradient(D, t[1] - t[0]))
    out = []
    for i, j in ((np.s_[:-1, :], np.s_[1:, :]), (np.s_[:, :-1], np.s_[:, 1:])):
        hit = ((D[i] < 0) != (D[j] < 0)) & (I[i] > 0) & (I[j] > 0)
        w = (D[i] / (D[i] - D[j] + 1e-300))[hit]
        px, py = X[i][hit] + w * (X[j] - X[i])[hit], Y[i][hit] + w * (Y[j] - Y[i])[hit]
        z, n = height(s["a"], px, py)
        out.append(np.stack([px, py, z, np.minimum(g[i][hit], g[j][hit]), n], -1))
    z = np.concatenate(out)
    return z[:, :3], z[:, 3], np.minimum(z[:, 4], height(s["b"], z[:, 0], z[:, 1])[1])


def off(s, P):
    """How far local points are from the two fields (and from their rectangles)."""
    e = []
    for f in (s["a"], s["b"]):
        z, n = height(f, P[:, 0], P[:, 1])
        e.append(np.maximum(np.abs(z - P[:, 2]), -n))
    return np.array(e)


def thick(pts, m=20):
    pts = np.asarray(pts, float)
    t = np.linspace(0, len(pts) - 1, m * (len(pts) - 1) + 1)
    return np.stack([np.interp(t, np.arange(len(pts)), pts[:, i]) for i in range(3)], -1)


ANGLE, FAR, MISS = 0.45, 0.25, 0.35


def judge_lines(s, lines, ctx, tag, short=()):
    Z, ang, margin = crossings(s)
    clear = (ang > 0.3) & (margin > 0.05)
    local = [unplace(s, x) for x in lines]
    if not len(Z) and not lines:
        ctx.check(True, f"{tag}:none", "")
        return
    for i, x in enumerate(local):
        ctx.check(bool(np.isfinite(x).all()), f"{tag}:nan", lambda: f"a point is not finite ({s})")
        e = off(s, x).max(0)
        if i < len(short) and short[i]:
            continue  # beside the branches, a pair of points may be found again, and a curve through so few swings out
        # between its points an interpolated curve may swing out at an end
        e = float(e.max() if tag == "trace" else np.quantile(e, 0.8))
        ctx.check(e < FAR, f"{tag}:off", lambda: f"a point of the intersection is {e} off a surface of size 4 ({s})")
    if clear.any():
        ctx.check(bool(lines), f"{tag}:none", lambda: f"no intersection found, {int(clear.sum())} sample points cross at a clear angle ({s})")
        d = cKDTree(np.concatenate([thick(x) for x in local])).query(Z[clear])[0]
        i = int(d.argmax())
        ctx.check(float(d[i]) < MISS, f"{tag}:missed", lambda: f"the surfaces cross at {Z[clear][i]}, the nearest found is {d[i]} away ({s})")
    for x in local:
        # every branch closes or runs out of one of the surfaces
        if len(x) > 3 and np.linalg.norm(x[0] - x[-1]) < max(1.5 * np.linalg.norm(np.diff(x, axis=0), axis=1).max(), FAR) and np.ptp(x, axis=0).max() > 0:
            continue
        for e in (x[0], x[-1]):
            m = min(float(height(f, e[:1], e[1:2])[1][0]) for f in (s["a"], s["b"]))
            ctx.check(m < FAR, f"{tag}:broken", lambda: f"a branch ends inside both surfaces at {e} ({s})")


class Seen:
    def __init__(self, *shapes):
        self.shapes = shapes

    def __iter__(self):
        for x in self.shapes:
            yield [np.array(x.control_points_w), np.array(x.knots_u), np.array(x.knots_v), list(x.degree)]


ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


def lines_of(r):
    return [] if r is None else [[np.array(x, float) for x in r[0]], [[np.array(y, float) for y in x] for x in r[1]], [[int(t) for t in x] for x in r[3]]]


@ask("trace")
class _:
    @staticmethod
    def gen(rng):
        out = {"s": scene(rng), "tol": rng.choice([1e-3, 1e-3, 1e-4, 5e-3])}
        if rng.chance(0.2):
            out["was"] = [rng.choice([1.0, 2.0, 0.5]) for _ in "ab"]
            out["quiet"] = rng.chance(0.7)
        return out

    @staticmethod
    def make(a, hook):
        s = a["s"]
        x, y = build(s, "a"), build(s, "b")
        if "was" in a:
            # the same surfaces on other domains, asked about before
            x, y = (M["nurbs"].NURBSSurface(np.array(z.control_points), tuple(z.degree), np.array(z.knots_u) * k, np.array(z.knots_v) / k) for z, k in zip((x, y), a["was"]))
            ask = M["ss"].surface_ppi
            if not a["quiet"]:
                ask = M["ssx"].ssx
            ask(x, y, a["tol"] * s["k"])
            x.normalize_knots()
            y.normalize_knots()
        return [Seen(x, y)], lambda: lines_of(M["ss"].surface_ppi(x, y, tol=a["tol"] * s["k"]))

    @staticmethod
    def judge(a, got, ctx):
        if isinstance(got, Exception):
            raise got
        judge_lines(a["s"], got[0] if got else [], ctx, "trace")
        if not got:
            return
        x, y = build(a["s"], "a"), build(a["s"], "b")
        if "was" in a:
            x.normalize_knots()
            y.normalize_knots()
        for pts, uvs in zip(got[0], got[1]):
            for z, uv in zip((x, y), uvs):
                ctx.check(len(uv) == len(pts), "trace:parameters", lambda: f"{len(uv)} parameters for {len(pts)} points")
                q = np.array([z.evaluate(np.array(p)) for p in uv])
                e = float(np.linalg.norm(q - pts, axis=1).max()) / a["s"]["k"]
                ctx.check(e < MISS, "trace:parameters-off", lambda: f"the parameters lead {e} away from their point ({a['s']})")


@ask("curves")
class _:
    @staticmethod
    def gen(rng):
        return {"s": scene(rng)}

    @staticmethod
    def make(a, hook):
        s = a["s"]
        x, y = build(s, "a"), build(s, "b")

        def go():
            out = []
            for c in M["ssx"].ssx(x, y, 1e-3 * s["k"]):
                row = []
                for z in c:
                    t0, t1 = z.interval()
                    row.append(np.array([np.array(z.evaluate(t), float) for t in np.linspace(t0, t1, 150)]))
                out.append(row + [len(np.array(c[0].control_points))])
            return out

        return [Seen(x, y)], go

    @staticmethod
    def judge(a, got, ctx):
        if isinstance(got, Exception):
            raise got
        judge_lines(a["s"], [x[0] for x in got], ctx, "curves", [x[3] <= 4 for x in got])
        for c, p, q, n in got:
            if n <= 4:
                continue
            for w in (p, q):
                d = float(np.quantile(cKDTree(thick(c)).query(w)[0], 0.8)) / a["s"]["k"]
                ctx.check(d < MISS, "curves:on-surface", lambda: f"the curve on a surface leaves the curve in space by {d} ({a['s']})")


def generate(rng, config):
    case = _asks.plan(rng, config, ["trace", "trace", "curves"], lambda r, k: ASK[k].gen(r), most=2)
    del case["asks"][2:]  # a single question takes long
    if "order" in case:
        del case["order"][2:]
    if "tasks" in case:
        case["tasks"] = [t[:1] for t in case["tasks"][:2]]
    case["env"] = base_env(rng)
    return case


def execute(case, ctx):
    _asks.run(case, ctx, lambda k, a, hook: ASK[k].make(a, hook), lambda k, a, got, c: ASK[k].judge(a, got, c), limit=20_000_000)
