"""C29: curves built through points and the spline recipes (spans, bases, insertion, refinement, elevation, joining) go where they should."""
import copy
import math
import pickle

from props import _asks
from props._asks import plan, run
from props._util import *
from props.c27_exact import all_basis, near, num, span

PROP = "C29"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 5000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 200000, "seconds": 400, "timeout": 60}}
STATES = "distinct (question, shape of the answer, outcome) tuples"
REAL = ["mmcore.geom.curves.bspline (interpolation, circles)", "mmcore.geom.curves.knot", "mmcore.geom.curves.bspline_first", "mmcore.geom.curves.deboor",
        "mmcore.construction.ruled (merging knots, making curves compatible)", "mmcore.geom.nurbs.NURBSCurve"]
STUB = ["numpy's array makers: one of them refuses memory"]
ASSUMPTIONS = ["neighbouring points to go through are clearly apart or clearly the same", "knot vectors are clamped, with inner knots of multiplicity up to the degree",
               "curves to compose share their degree and the weight at the joint", "no knot is inserted beyond the degree"]
KINDS = ["through", "through", "through", "circle", "circle", "knots", "params", "spans", "insert", "insert", "refine", "refine", "refine", "slopes", "slopes",
         "plain", "bezier", "elevate", "compose", "compose", "compatible", "compatible", "merge", "deboor", "deboor"]


# ---------------------------------------------------------------- the questions

def knots(rng, p, n, start=0.0):
    """Clamped, n control points; distinct values half a unit apart at least."""
    inner = n - p - 1
    u, out = start, [start] * (p + 1)
    while inner > 0:
        u += rng.choice([1.0, 1.0, 0.5, 2.0])
        k = min(inner, rng.choice([1, 1, 1, 2, p]), p)
        out += [u] * k
        inner -= k
    return out + [u + rng.choice([1.0, 0.5, 2.0])] * (p + 1)


def cloud(rng, n, d):
    return [[num(rng) for _ in range(d)] for _ in range(n)]


def between(rng, U, n=1):
    """Parameters strictly inside, away from every knot."""
    out = []
    vals = sorted(set(U))
    for _ in range(n):
        i = rng.randrange(len(vals) - 1)
        out.append(vals[i] + rng.choice([0.25, 0.5, 0.75, round(rng.uniform(0.1, 0.9), 3)]) * (vals[i + 1] - vals[i]))
    return out


def net(rng, most=5, d=None, least=1):
    p = rng.randrange(least, 5)
    n = p + 1 + rng.randrange(0, most)
    U = knots(rng, p, n, rng.choice([0.0, 0.0, 0.0, 1.0, -2.0]))
    d = d or rng.choice([2, 3, 4])
    return {"p": p, "U": U, "P": cloud(rng, n, d), "u": [U[0], U[-1], rng.choice(U)] + between(rng, U, 3)}


def rational(rng, p=None):
    a = net(rng, 4, 3)
    if p is not None:
        a["p"], n = p, p + 1 + rng.randrange(0, 4)
        a["U"] = knots(rng, p, n)
        a["P"] = cloud(rng, n, 3)
    a["w"] = [rng.choice([1.0, 0.5, 2.0, 3.0]) for _ in a["P"]] if rng.chance(0.5) else [1.0] * len(a["P"])
    return a


def gen(rng, k):
    if k in ("through", "params"):
        d = rng.choice([2, 3, 3])
        n = rng.choice([2, 3, 4, 5, 6, 9])
        pts = [[num(rng) for _ in range(d)]]
        while len(pts) < n:
            x = [num(rng) for _ in range(d)]
            if math.dist(x, pts[-1]) > 0.05:
                pts.append(x)
        if rng.chance(0.3) and k == "through":
            i = rng.randrange(len(pts))
            pts.insert(i, [x + rng.choice([0.0, 1e-7]) for x in pts[i]])
        return {"p": pts, "d": rng.choice([1, 2, 3, 3, 3, 4, 5]), "c": rng.chance(0.4), "how": rng.choice(["nurbs", "nurbs", "raw"]), "bare": rng.chance(0.3)}
    if k == "circle":
        world = rng.chance(0.5)
        x = [num(rng) for _ in range(3)]
        return {"o": x, "plane": None if world else rng.randrange(4), "r": rng.choice([0.5, 1.0, 2.0, 3.5]), "t": [round(rng.uniform(0, 2 * math.pi), 3) for _ in range(3)],
                "how": rng.choice(["tuple", "list", "array"]), "bare": rng.chance(0.3)}
    if k == "knots":
        p = rng.randrange(1, 5)
        return {"p": p, "n": p + 1 + rng.randrange(0, 6), "c": rng.chance(0.7), "m": rng.choice([0.0, 1.0, -2.5]), "s": rng.choice([1.0, 2.0, 0.3]), "bare": rng.chance(0.3)}
    if k == "bezier":
        p = rng.choice([1, 2, 3, 4, 4, 18])
        return {"p": p, "P": cloud(rng, p + 1, rng.choice([2, 3, 4])), "by": rng.randrange(1, 4) if p < 9 else rng.choice([2, 13, 14]), "t": [round(rng.random(), 3) for _ in range(3)] + [0.0, 1.0], "bad": rng.chance(0.15)}
    if k == "elevate":
        return dict(rational(rng), by=rng.randrange(1, 3))
    if k in ("compose", "compatible"):
        p = rng.randrange(1, 4)
        a = [rational(rng, p if k == "compose" or rng.chance(0.5) else None) for _ in range(rng.choice([1, 2, 2, 3]) if k == "compose" else 2)]
        if k == "compose":
            for x, y in zip(a, a[1:]):
                y["P"][0] = list(x["P"][-1])
                y["w"][0] = x["w"][-1]
            for y in a:
                if rng.chance(0.5):  # over a part of 0..1, up to 1, from 1 on
                    s, e = rng.choice([(0.0, 1.0), (0.5, 1.0), (-1.0, 1.0), (-0.5, 0.5), (1.0, 2.0), (0.0, 0.5)])
                    lo, hi = y["U"][0], y["U"][-1]
                    y["U"] = [s if u == lo else e if u == hi else s + (u - lo) / (hi - lo) * (e - s) for u in y["U"]]
        else:
            y = a[1]
            s = a[0]["U"][0]
            y["U"] = [s + (u - y["U"][0]) / (y["U"][-1] - y["U"][0]) * (a[0]["U"][-1] - s) for u in y["U"]]
            y["U"][-y["p"] - 1:] = [a[0]["U"][-1]] * (y["p"] + 1)
            if min((abs(u - v) for u in set(a[0]["U"]) for v in set(y["U"]) if u != v), default=1) < 0.02:
                y["p"], y["U"], y["P"], y["w"] = 2, [s] * 3 + [a[0]["U"][-1]] * 3, cloud(rng, 3, 3), [1.0, 2.0, 1.0]
        return {"cs": a, "f": [0.0, 1.0] + [round(rng.random(), 3) for _ in range(3)]}
    if k == "merge":
        p = rng.randrange(1, 4)
        return {"U": knots(rng, p, p + 1 + rng.randrange(0, 5)), "V": knots(rng, p, p + 1 + rng.randrange(0, 5)), "w": rng.randrange(2)}
    a = net(rng, 5, 3 if k in ("deboor", "plain") else None)
    U, p = a["U"], a["p"]
    if k == "insert":
        inner = [u for u in set(U[p + 1:-p - 1])]
        u = rng.choice(inner) if inner and rng.chance(0.5) else between(rng, U)[0]
        room = p - U.count(u)
        a["x"], a["r"] = u, rng.randrange(1, room + 1) if room > 0 else 0
    elif k == "refine":
        X = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            inner = [u for u in set(U[p + 1:-p - 1])] + X
            u = rng.choice(inner) if inner and rng.chance(0.4) else between(rng, U)[0]
            if (U + X).count(u) < p and all(u == v or abs(u - v) > 0.01 for v in X):
                X.append(u)
        a["X"] = sorted(X) or between(rng, U)
        a["way"] = rng.choice(["two", "two", "two", "auto", "list", "add"])
        a["density"] = rng.choice([0, 1, 1, 2])
    elif k in ("slopes", "plain"):
        a["nd"] = rng.randrange(0, 4)
        a["default"] = rng.chance(0.3)
    elif k == "deboor":
        a["w"] = [rng.choice([1.0, 0.5, 2.0]) for _ in a["P"]]
    return a


def generate(rng, config):
    case = plan(rng, config, KINDS, gen)
    case["env"] = base_env(rng)
    return case


# ---------------------------------------------------------------- asking

def setup():
    import mmcore.construction.ruled  # noqa: F401
    import mmcore.geom.curves.bspline  # noqa: F401
    import mmcore.geom.curves.bspline_first  # noqa: F401
    import mmcore.geom.curves.deboor  # noqa: F401
    import mmcore.geom.curves.knot  # noqa: F401
    import mmcore.geom.nurbs  # noqa: F401


def read_curve(x):
    if type(x).__name__ == "NURBSCurve" and hasattr(x, "control_pointsw"):
        return ["curve", int(x.degree), np.array(x.knots), np.array(x.control_pointsw)]
    return None


_asks.READERS.append(read_curve)


def frame(i):
    c, s = math.cos(0.7 * i), math.sin(0.7 * i)
    return np.array([[1.0 + i, -2.0, 0.5 * i], [c, s, 0.0], [0.0, 0.0, 1.0], [s, -c, 0.0]])


def curve(a):
    from mmcore.geom.nurbs import NURBSCurve

    return NURBSCurve(np.array([x + [w] for x, w in zip(a["P"], a["w"])]), a["p"], np.array(a["U"]))


def make(k, a, hook):
    import sys

    ruled = sys.modules["mmcore.construction.ruled"]
    from mmcore.geom.curves import bspline, bspline_first, deboor, knot

    if k == "through":
        pts = np.array(a["p"], float)

        def through():
            if a["how"] == "raw":
                c, U, p = knot.interpolate_curve(pts, a["d"], use_centripetal=a["c"])
                return int(p), np.array(U, float), np.array(c), None, None
            if a["bare"]:
                c = bspline.interpolate_nurbs_curve(pts)
            else:
                c = bspline.interpolate_nurbs_curve(pts, a["d"], a["c"])
            us = param(a["p"], a["c"] and not a["bare"])[1]
            return int(c.degree), np.array(c.knots), np.array(c.control_points), [np.array(c.evaluate(u)) for u in us], list(c.interval())
        return {"pts": pts}, through
    if k == "circle":
        o = {"tuple": tuple, "list": list, "array": np.array}[a["how"]](a["o"])
        pl = None if a["plane"] is None else frame(a["plane"])

        def circle():
            kw = {"radius": a["r"]}
            if pl is not None:
                kw["plane"] = pl
            elif not a["bare"]:
                kw["origin"] = o
            c = bspline.NURBSpline.create_circle(**kw)
            t = a["t"] + [0.0, math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi]
            x = np.array(t)
            kept = []
            for d in (pickle.loads(pickle.dumps(c)), copy.deepcopy(c)):
                kept.append([np.array(d(x)), list(d.interval()), list(d.weights), int(d.degree)])
                d.control_points[:] += 1.0
                d.knots[:] *= 2.0
                kept[-1].append(np.array(c(x)))
            return (kept, list(c.weights), [np.array(c.evaluate(x)) for x in t], list(c.interval()), np.array(bspline.WORLD_XY), np.array(c(t[0])), np.array(c(x)), np.array(c(x.reshape(2, -1))),
                    np.array(c(tuple(t))))
        return {"o": o, "plane": pl}, circle
    if k == "knots":
        def gk():
            U = knot.generate_knot(a["p"], a["n"]) if a["bare"] else knot.generate_knot(a["p"], a["n"], clamped=a["c"])
            V = [a["m"] + a["s"] * u for u in U]
            return U, knot.normalize_knot(V), knot.normalize_knot(tuple(V)), V
        return {}, gk
    if k == "params":
        pts = np.array(a["p"], float)

        def ps():
            us = knot.compute_params_curve(pts) if a["bare"] else knot.compute_params_curve(pts, a["c"])
            d = min(a["d"], len(pts) - 1)
            return us, knot.compute_knot_vector(d, len(pts), us), d
        return {"pts": pts}, ps
    if k in ("bezier", "elevate"):
        if k == "elevate":
            def up():
                c = curve(a)
                before = _asks.freeze(c)
                e = knot.degree_elevate_curve(c, a["by"])
                return e, before, _asks.freeze(c)
            return {}, up
        P = np.array(a["P"])

        def elevate():
            try:
                bad = a["bad"] and knot.degree_elevation_bez(P, a["p"] + 1, num=a["by"])
            except ValueError:
                bad = "refused"
            return knot.degree_elevation_bez(P, a["p"], num=a["by"]) + (knot.degree_elevation_bez(P, a["p"]), bad)
        return {"P": P}, elevate
    if k in ("compose", "compatible"):
        def several():
            cs = [curve(x) for x in a["cs"]]
            before = _asks.freeze(cs)
            got = knot.compose_curves(cs) if k == "compose" else ruled.make_curves_compatible(*cs)
            return got, before, _asks.freeze(cs)
        return {}, several
    if k == "merge":
        U, V = np.array(a["U"]), np.array(a["V"])
        return {"U": U, "V": V}, lambda: np.array((knot, ruled)[a["w"]].merge_knot_vectors(U, V))
    p, U, P = a["p"], np.array(a["U"]), np.array(a["P"])
    L = list(a["U"])
    if k == "spans":
        def spans():
            n = len(P)
            out = []
            for u in a["u"]:
                s = [int(knot.find_span_linear(p, L, n, u)), int(knot.find_span_binsearch(p, L, n, u)), int(bspline_first.find_span(n - 1, p, u, L)), int(knot.find_knot_span(n - 1, p, u, L))]
                w = span(p, a["U"], u)
                out.append([s, list(knot.basis_function(p, L, w, u)), list(bspline_first.basis_funs(w, u, p, L)), knot.find_multiplicity(u, L)])
            return out, list(knot.find_spans(p, L, n, a["u"])), list(knot.find_spans(p, L, n, a["u"], func=knot.find_span_binsearch))
        return {"L": L}, spans
    if k == "insert":
        return {"L": L, "P": P}, lambda: knot.knot_insertion(p, L, P, a["x"], a["r"]) if a["r"] else (P, L)
    if k == "refine":
        X = list(a["X"])
        if a["way"] == "two":
            return {"U": U, "P": P, "X": X}, lambda: knot.knot_refinement2(len(P) - 1, p, U, P, X)
        rows = [list(x) for x in a["P"]]
        kw = {"auto": {}, "list": {"knot_list": X}, "add": {"add_knot_list": X}}[a["way"]]
        if not todo(a):
            return {}, lambda: (P, U)

        def refine():
            Q, V = knot.knot_refinement1(p, L, rows, density=a["density"], **kw)
            return np.array(Q), np.array(V)
        return {"L": L, "rows": rows, "X": X}, refine
    if k == "slopes":
        def slopes():
            out = []
            nd = min(a["nd"], p)
            for u in a["u"]:
                s = span(p, a["U"], u)
                one = knot.curve_deriv_cpts(P.shape[1], p, L, a["P"], (s - p, s), nd)
                two = np.array(bspline_first.curve_deriv_cpts(p, U, P, nd, s - p, s))
                out.append([[[list(x) for x in row[: p + 1 - i]] for i, row in enumerate(one)], [two[i, : p + 1 - i] for i in range(nd + 1)],
                            np.array(bspline_first.curve_point(len(P) - 1, p, L, P, u)),
                            np.array(bspline_first.curve_derivs_alg1(len(P) - 1, p, L, P, u, a["nd"]), float),
                            np.array(bspline_first.curve_derivs_alg2(len(P) - 1, p, L, P, u, a["nd"]), float)])
            return out
        return {"U": U, "P": P, "L": L}, slopes
    if k == "plain":
        def plain():
            c = bspline_first.NURBSCurve(P, p) if a["default"] else bspline_first.NURBSCurve(P, p, L)
            lo, hi = float(c.knots[0]), float(c.knots[-1])
            us = [lo + (hi - lo) * (u - L[0]) / (L[-1] - L[0]) for u in a["u"]]
            return us, np.array(c.knots), [np.array(c.evaluate(u)) for u in us], [np.array(c.derivatives(u, a["nd"])) for u in us], float(c.interval()[1]), np.array(c.control_points)
        return {"P": P, "L": L}, plain
    w = np.array(a["w"])

    def boor():
        u = np.array(a["u"])
        return ([[deboor.deboor(U, x, i, p) for i in range(len(P))] for x in a["u"]], [np.array(deboor.evaluate_nurbs(x, P, U, w, p)) for x in a["u"]],
                np.array(deboor.evaluate_nurbs_multi(u, P, U, w, p)))
    return {"U": U, "P": P, "w": w}, boor


def todo(a):
    """The knots an automatic refinement has to insert (none of them: the recipe has nothing to do)."""
    p, U = a["p"], a["U"]
    base = list(U[p:-p]) if a["way"] != "list" else list(a["X"])
    if a["way"] == "add":
        base += a["X"]
    base = sorted(set(base))
    for _ in range(a["density"]):
        base = sorted(set(base + [x + (y - x) / 2 for x, y in zip(base, base[1:])]))
    return [x for x in base for _ in range(p - sum(abs(x - u) < 1e-7 for u in U))]


def param(pts, cent):
    keep = [pts[0]] + [y for x, y in zip(pts, pts[1:]) if math.dist(x, y) > 1e-5]
    d = [math.dist(x, y) ** (0.5 if cent else 1) for x, y in zip(keep, keep[1:])]
    return keep, [sum(d[:i]) / sum(d) if i < len(d) else 1.0 for i in range(len(keep))]


def at(p, U, P, u, k=0):
    U = list(U)
    return all_basis(p, U, u, span(p, U, u), k) @ np.array(P, float)


def flat(p, U, P, w, u):
    P, w = np.array(P, float), np.array(w, float)
    h = at(p, U, np.concatenate([P * w[:, None], w[:, None]], axis=1), u)
    return h[:3] / h[3]


def average(p, us):
    n = len(us)
    return [0.0] * (p + 1) + [sum(us[i + 1:i + p + 1]) / p for i in range(n - p - 1)] + [1.0] * (p + 1)


def judge(k, a, r, ctx):
    if isinstance(r, BaseException):
        from sim.core import exception_violation

        raise exception_violation(r)
    if k == "through":
        p, U, P, got, box = r
        bare = a["bare"] and a["how"] != "raw"
        keep, us = param(a["p"], a["c"] and not bare)
        if a["how"] == "raw" and len(keep) < 2:
            return
        want = min(3 if bare else a["d"], len(keep) - 1)
        ctx.check(p == want and len(U) == len(keep) + p + 1 and len(P) == len(keep), "through:degree", lambda: f"degree {p}, {len(U)} knots, {len(P)} points through {len(keep)}")
        ctx.check(near(U, average(p, us), 1e-8), "through:knots", lambda: f"{U}, not {average(p, us)}")
        d = len(keep[0])
        pts = np.array([x + [0.0] * (3 - d) for x in keep])
        if got is not None:
            ctx.check(near(got, pts, 1e-6), "through:points", lambda: f"at {us}: {got}, not {pts}")
            ctx.check(near(box, [0, 1], 1e-12), "through:interval", lambda: f"{box}")
        else:
            pts = pts[:, :d]
        ctx.check(near([at(p, U, P, u) for u in us], pts, 1e-6), "through:control", lambda: f"control points {P} do not go through {pts}")
        ctx.check(near(P[0], pts[0], 1e-9) and near(P[-1], pts[-1], 1e-9), "through:ends", lambda: f"{P[0]}..{P[-1]}")
    elif k == "circle":
        kept, w, got, box, world, *asked = r
        for pts, ends, ww, deg, after in kept:
            ctx.check(near(pts, got, 1e-12) and list(ends) == list(box) and near(ww, w, 0) and deg == 2, "circle:copy", lambda: f"the copy gives {pts} over {ends}, weights {ww}")
            ctx.check(near(after, got, 1e-12), "circle:copy-apart", lambda: f"{after} after the copy was edited, not {got}")
        for x, shape in zip(asked, ((3,), (8, 3), (2, 4, 3), (8, 3))):
            ctx.check(np.shape(x) == shape and near(np.reshape(x, (-1, 3)), got[: len(np.reshape(x, (-1, 3)))]), "circle:called", lambda: f"{x}, not {got}")
        ctx.check(near(world, np.vstack([np.zeros((1, 3)), np.eye(3)]), 0), "circle:world", "the world plane was moved")
        ctx.check(near(box, [0, 2 * math.pi], 1e-12), "circle:interval", lambda: f"{box}")
        f = frame(a["plane"]) if a["plane"] is not None else np.vstack([[[0.0] * 3 if a["bare"] else a["o"]], np.eye(3)])
        loc = [((x - f[0]) @ f[1], (x - f[0]) @ f[2], (x - f[0]) @ f[3]) for x in got]
        ctx.check(all(abs(math.hypot(x, y) - a["r"]) < 1e-9 * 10 and abs(z) < 1e-9 for x, y, z in loc), "circle:round", lambda: f"radius {a['r']}: {loc}")
        for (x, y, _), t in list(zip(loc, a["t"] + [0.0, math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi]))[-5:]:
            ctx.check(near([x, y], [a["r"] * math.cos(t), a["r"] * math.sin(t)], 1e-8), "circle:quarters", lambda: f"at {t}: {x, y}")
        for (x, y, _), t in zip(loc, a["t"]):
            q = math.floor(t / (math.pi / 2)) * math.pi / 2
            turn = (math.atan2(y, x) - q + 1e-9) % (2 * math.pi)
            ctx.check(turn <= math.pi / 2 + 1e-6, "circle:sense", lambda: f"at {t}: {x, y}")
    elif k == "knots":
        U, x, y, V = r
        p, n = a["p"], a["n"]
        if a["c"] or a["bare"]:
            want = [0.0] * p + [float(i) for i in range(n - p + 1)] + [float(n - p)] * p
        else:
            want = [float(i) for i in range(n + p + 1)]
        ctx.check(near(U, want, 1e-12), "knots:uniform", lambda: f"{U}, not {want}")
        want = [u / U[-1] for u in U]
        ctx.check(near(x, want) and near(y, want) and near(V, [a["m"] + a["s"] * u for u in U], 0), "knots:unit", lambda: f"{x}, not {want}")
    elif k == "params":
        us, U, d = r
        want = param(a["p"], a["c"] and not a["bare"])[1]
        ctx.check(near(us, want), "params:chords", lambda: f"{us}, not {want}")
        ctx.check(near(U, average(d, us)), "params:average", lambda: f"{U}, not {average(d, us)}")
    elif k == "bezier":
        Q, q, (Q1, q1), bad = r
        p = a["p"]
        ctx.check(not a["bad"] or bad == "refused", "bezier:refused", "points of another degree were taken")
        for R, d, by in ((Q, q, a["by"]), (Q1, q1, 1)):
            ctx.check(d == p + by and len(R) == d + 1, "bezier:degree", lambda: f"{d}, {len(R)} points")
            for t in a["t"]:
                x, y = (sum(math.comb(m, i) * t ** i * (1 - t) ** (m - i) * np.array(c, float) for i, c in enumerate(S)) for m, S in ((d, R), (p, a["P"])))
                ctx.check(near(x, y), "bezier:shape", lambda: f"raised by {by}, at {t}: {x}, not {y}")
    elif k == "elevate":
        (_, d, V, Q), before, after = r
        ctx.check(same(before, after), "elevate:argument", "the curve to elevate was changed")
        ctx.check(d == a["p"] + a["by"], "elevate:degree", lambda: f"{d}")
        for u in a["u"]:
            x, y = flat(d, V, Q[:, :3], Q[:, 3], u), flat(a["p"], a["U"], a["P"], a["w"], u)
            ctx.check(near(x, y, 1e-8), "elevate:shape", lambda: f"at {u}: {x}, not {y}")
    elif k == "compose":
        (U, P, joints), before, after = r
        ctx.check(same(before, after), "compose:argument", "a curve to compose was changed")
        cs = a["cs"]
        p = cs[0]["p"]
        P = np.array(P)
        ctx.check(len(U) == len(P) + p + 1 and near(joints, list(range(1, len(cs))), 1e-12), "compose:knots", lambda: f"{U}, joints {joints}")
        for i, c in enumerate(cs):
            for f in a["f"]:
                if f in (0.0, 1.0) and 0 < i + f < len(cs):
                    continue
                x, y = flat(p, U, P[:, :3], P[:, 3], i + f), flat(p, c["U"], c["P"], c["w"], c["U"][0] + f * (c["U"][-1] - c["U"][0]))
                ctx.check(near(x, y, 1e-8), "compose:shape", lambda: f"curve {i} at {f}: {x}, not {y}")
    elif k == "compatible":
        pair, before, after = r
        ctx.check(same(before, after), "compatible:argument", "a curve to be made compatible was changed")
        (_, d1, U1, P1), (_, d2, U2, P2) = pair
        ctx.check(d1 == d2 == max(c["p"] for c in a["cs"]) and near(U1, U2, 1e-6) and len(P1) == len(P2), "compatible:same", lambda: f"degrees {d1}, {d2}, knots {U1}, {U2}")
        for c, d, U, P in ((a["cs"][0], d1, U1, P1), (a["cs"][1], d2, U2, P2)):
            for f in a["f"]:
                u = c["U"][0] + f * (c["U"][-1] - c["U"][0])
                x, y = flat(d, U, P[:, :3], P[:, 3], u), flat(c["p"], c["U"], c["P"], c["w"], u)
                ctx.check(near(x, y, 1e-7), "compatible:shape", lambda: f"at {u}: {x}, not {y}")
    elif k == "merge":
        want = sorted(x for x in set(a["U"] + a["V"]) for _ in range(max(a["U"].count(x), a["V"].count(x))))
        ctx.check(near(r, want, 1e-12), "merge:knots", lambda: f"{r}, not {want}")
    elif k == "spans":
        rows, lin, bins = r
        p, U = a["p"], a["U"]
        ws = [span(p, U, u) for u in a["u"]]
        ctx.check(lin == ws and bins == ws, "spans:several", lambda: f"{lin}, {bins}, not {ws}")
        for u, w, (s, b1, b2, m) in zip(a["u"], ws, rows):
            ctx.check(s == [w] * len(s), "spans:one", lambda: f"{u} in {U}: {s}, not {w}")
            want = all_basis(p, U, u, w)[w - p:w + 1]
            ctx.check(near(b1, want) and near(b2, want), "spans:basis", lambda: f"{b1}, {b2}, not {want}")
            ctx.check(m == sum(abs(u - x) <= 1e-7 for x in U), "spans:multiplicity", lambda: f"{u} in {U}: {m}")
    elif k in ("insert", "refine"):
        Q, V = np.array(r[0], float), list(map(float, r[1]))
        p, U = a["p"], a["U"]
        X = [a["x"]] * a["r"] if k == "insert" else a["X"] if a["way"] == "two" else todo(a)
        ctx.check(near(V, sorted(U + X), 1e-12), k + ":knots", lambda: f"{V}, not {sorted(U + X)}")
        ctx.check(len(Q) == len(a["P"]) + len(X), k + ":points", lambda: f"{len(Q)} points")
        for u in a["u"] + X:
            x, y = at(p, V, Q, u), at(p, U, a["P"], u)
            ctx.check(near(x, y, 1e-8), k + ":shape", lambda: f"{U} + {X}, at {u}: {x}, not {y}")
    elif k == "slopes":
        p, U, P = a["p"], a["U"], np.array(a["P"])
        nd = min(a["nd"], p)
        for u, (one, two, pt, d1, d2) in zip(a["u"], r):
            s = span(p, U, u)
            want = [np.array(P[s - p:s + 1])]
            for i in range(1, nd + 1):
                q = p - i + 1
                want.append(np.array([q * (want[-1][j + 1] - want[-1][j]) / (U[s - p + j + p + 1] - U[s - p + j + i]) for j in range(p - i + 1)]))
            for i in range(nd + 1):
                ctx.check(near(one[i], want[i], 1e-8) and near(two[i], want[i], 1e-8), "slopes:control", lambda: f"derivative {i} at {u}: {one[i]}, {two[i]}, not {want[i]}")
            want = [at(p, U, P, u, i) for i in range(nd + 1)]
            ctx.check(near(pt, want[0]), "slopes:point", lambda: f"{pt}, not {want[0]}")
            ctx.check(near(d1, want, 1e-7), "slopes:first", lambda: f"at {u}: {d1}, not {want}")
            ctx.check(near(d2[:nd + 1], want, 1e-7) and not np.any(d2[nd + 1:]), "slopes:second", lambda: f"at {u}: {d2}, not {want}")
    elif k == "plain":
        us, U, pts, ders, hi, P = r
        p = a["p"]
        n = len(a["P"])
        want = a["U"] if not a["default"] else [0.0] * (p + 1) + [float(i) for i in range(1, n - p)] + [float(n - p)] * (p + 1)
        ctx.check(near(U, want, 0) and hi == want[-1] and near(P, a["P"], 0), "plain:parts", lambda: f"{U}, not {want}")
        for u, x, d in zip(us, pts, ders):
            want = [at(p, U, P, u, i) for i in range(min(a["nd"], p) + 1)]
            ctx.check(near(x, want[0]), "plain:point", lambda: f"at {u}: {x}, not {want[0]}")
            ctx.check(near(d, want, 1e-7), "plain:derivatives", lambda: f"at {u}: {d}, not {want}")
    elif k == "deboor":
        p, U, w = a["p"], a["U"], np.array(a["w"])
        basis, one, many = r
        for u, b, x, y in zip(a["u"], basis, one, many):
            want = all_basis(p, U, u, span(p, U, u))
            ctx.check(near(b, want), "deboor:basis", lambda: f"degree {p} over {U} at {u}: {b}, not {want}")
            want = flat(p, U, a["P"], w, u)
            ctx.check(near(x, want, 1e-8), "deboor:point", lambda: f"{x}, not {want}")
            ctx.check(near(y, want, 1e-8), "deboor:points", lambda: f"{y}, not {want}")


def execute(case, ctx):
    run(case, ctx, make, judge)
