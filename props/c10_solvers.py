"""C10: the numerical solvers: certified answers, given again among failing callbacks, interrupts and other tasks."""
import importlib
import math

from props import _asks
from props._util import *

PROP = "C10"
LEVEL = "exploration"
CONFIGS = ["plain", "faults", "concurrent", "faults"]
PLAN = {"quick": {"seeds": 3000, "seconds": 40}, "thorough": {"seeds": 120000, "seconds": 400}}
STATES = "distinct (solver, calls of the caller's function, answer) tuples and interleavings"
REAL = ["mmcore.numeric.fdm", "mmcore.numeric.newton (cnewton, bounded)", "mmcore.numeric.divide_and_conquer",
        "mmcore.numeric.bisection", "mmcore.numeric.marching", "mmcore.numeric.algorithms.implicit_point",
        "mmcore.numeric.integrate.romberg", "mmcore.numeric.prime", "mmcore.numeric.numeric"]
STUB = []
ASSUMPTIONS = ["objective functions are smooth, pure and well scaled (quadratics, spheres, planes, low polynomials)"]

M = {}


def setup():
    for k, n in [("fdm", "fdm"), ("cn", "newton.cnewton"), ("bd", "newton.bounded"), ("dac", "divide_and_conquer"),
                 ("bis", "bisection"), ("mar", "marching"), ("ip", "algorithms.implicit_point"),
                 ("rom", "integrate.romberg"), ("prime", "prime"), ("num", "numeric"), ("al", "arc_length")]:
        M[k] = importlib.import_module("mmcore.numeric." + n)


def r(rng, lo, hi):
    return round(rng.uniform(lo, hi), rng.choice([1, 3, 6]))


def quad_args(rng, n):
    return {"c": [r(rng, -3, 3) for _ in range(n)], "d": [r(rng, 0.5, 4) for _ in range(n)],
            "t": r(rng, -1, 1) if n > 1 and rng.chance(0.6) else 0.0, "k": r(rng, -2, 2),
            "x": [r(rng, -5, 5) if rng.chance(0.8) else float(rng.randrange(-5, 6)) for _ in range(n)]}


def quad(a):
    n = len(a["c"])
    q = np.eye(n)
    if n > 1:
        c, s = math.cos(a["t"]), math.sin(a["t"])
        q[0, 0], q[0, 1], q[1, 0], q[1, 1] = c, -s, s, c
    m = q @ np.diag(np.array(a["d"][:n], float)) @ q.T
    if a.get("m"):
        m = np.array([row[:n] for row in a["m"][:n]], float)
        m = m + np.tril(m, -1).T
    c = np.array(a["c"], float)

    def f(x):
        y = np.asarray(x, float) - c
        return float(y @ m @ y + a["k"])

    return f, m, c


# -- the questions: name -> (arguments, inputs and call, judgement) ------------------------------------------------
ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


def near(ctx, name, got, want, tol, what=""):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), f"{name}:wrong",
              lambda: f"{what} got {got}, expected {want} within {tol}")


class Quad:
    dims = (1, 2, 3)

    @classmethod
    def gen(cls, rng):
        return quad_args(rng, rng.choice(cls.dims))


@ask("fdm.gradient")
class _(Quad):
    @classmethod
    def gen(cls, rng):
        a = quad_args(rng, rng.choice(cls.dims))
        a["how"] = rng.choice(["fdm", "cn", "Grad", "forward", "backward", "multi", "pde"])
        a["int"] = rng.chance(0.2)
        return a

    @staticmethod
    def make(a, hook):
        f, m, c = quad(a)
        x = np.array(a["x"])
        if a["int"] and a["how"] in ("fdm", "multi"):
            x = np.round(x).astype(int)
        g = hook(f)
        h = a["how"]
        if h == "multi":
            x = np.array([x, x + 1, x - 2])
            gm = hook(lambda p: np.array([f(q) for q in p.T]))
            return [x], lambda: M["fdm"].gradient_multi(gm, x)
        return [x], {
            "fdm": lambda: M["fdm"].gradient(g, x), "cn": lambda: np.asarray(M["cn"].gradient(g, x)),
            "Grad": lambda: M["fdm"].Grad(g)(x), "forward": lambda: M["fdm"].Grad(g)(x, method="forward", h=1e-6),
            "backward": lambda: M["fdm"].Grad(g)(x, method="backward", h=1e-6), "pde": lambda: M["fdm"].pde(g, x)}[h]

    @staticmethod
    def judge(a, got, ctx):
        f, m, c = quad(a)
        x = np.array(a["x"])
        if a["int"] and a["how"] in ("fdm", "multi"):
            x = np.round(x)
        if a["how"] == "multi":
            near(ctx, "fdm.gradient", got, [2 * m @ (y - c) for y in (x, x + 1, x - 2)], 1e-6, a["how"])
        else:
            near(ctx, "fdm.gradient", got, 2 * m @ (x - c), 1e-6 if a["how"] in ("fdm", "Grad", "pde") else 1e-4, a["how"])


@ask("fdm.hessian")
class _(Quad):
    @classmethod
    def gen(cls, rng):
        a = quad_args(rng, rng.choice(cls.dims))
        a["how"] = rng.choice(["fdm", "cn", "multi", "Hess"])
        return a

    @staticmethod
    def make(a, hook):
        f, m, c = quad(a)
        x = np.array(a["x"])
        g = hook(f)
        if a["how"] == "multi":
            x = np.array([x, x + 1])
            gm = hook(lambda p: np.array([f(q) for q in p.T]))
            return [x], lambda: M["fdm"].hessian_multi(gm, x)
        return [x], {"fdm": lambda: M["fdm"].hessian(g, x), "Hess": lambda: M["fdm"].Hess(g)(x),
                     "cn": lambda: np.asarray(M["cn"].hessian(g, x, 1e-3))}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        f, m, c = quad(a)
        near(ctx, "fdm.hessian", got, [2 * m] * 2 if a["how"] == "multi" else 2 * m, 1e-4, a["how"])


@ask("fdm.curve")
class _:
    @staticmethod
    def gen(rng):
        return {"p": [[r(rng, -3, 3) for _ in range(3)] for _ in range(3)], "t": r(rng, -2, 2),
                "how": rng.choice(["fdm", "FDM", "derivate", "bounded", "dydx"])}

    @staticmethod
    def make(a, hook):
        p = np.array(a["p"])
        f = hook(lambda t: p[0] + p[1] * t + p[2] * t * t)
        t = a["t"]
        F = M["fdm"]
        return [p], {"fdm": lambda: F.fdm(f)(t), "FDM": lambda: F.FDM(f)(t), "derivate": lambda: F.derivate(f, t),
                     "bounded": lambda: F.bounded_fdm(f, bounds=(-2.0, 2.0))(t), "dydx": lambda: F.FDM(f).dydx(t)}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        p, t = np.array(a["p"]), a["t"]
        d = p[1] + 2 * p[2] * t
        if a["how"] == "dydx":
            if abs(d[0]) > 0.1:
                near(ctx, "fdm.curve", got, [d[1] / d[0]], 1e-6, "dydx")
            return
        near(ctx, "fdm.curve", got, d, 1e-2 if a["how"] == "bounded" else 1e-6, a["how"])


@ask("newton")
class _(Quad):
    @classmethod
    def gen(cls, rng):
        a = quad_args(rng, rng.choice(cls.dims))
        a["how"] = rng.choice(["fdm", "fdm", "fdm_list", "fdm_int", "cn", "cn_full", "multi", "bfgs"])
        if a["how"] in ("cn", "cn_full") and rng.chance(0.5):
            # a saddle: a stationary point like any other, with a Hessian whose elimination has to swap rows
            n = rng.choice([2, 3, 4, 5])
            a.update(quad_args(rng, n))
            a["m"] = [[r(rng, -3, 3) if i > j else rng.choice([0.0, r(rng, -1, 1)]) if i == j else 0.0 for j in range(n)] for i in range(n)]
        return a

    @staticmethod
    def make(a, hook):
        f, m, c = quad(a)
        g = hook(f)
        x = np.array(a["x"])
        h = a["how"]
        if h == "fdm_list":
            x = list(a["x"])
        elif h == "fdm_int":
            x = np.round(x).astype(int)
        elif h == "multi":
            x = np.array([x, x + 0.7, x - 1.9])
            gm = hook(lambda p: np.array([f(q) for q in p.T]))
            return [x], lambda: M["fdm"].multi_newtons_method(gm, x)
        return [x], {"fdm": lambda: M["fdm"].newtons_method(g, x), "fdm_list": lambda: M["fdm"].newtons_method(g, x),
                     "fdm_int": lambda: M["fdm"].newtons_method(g, x),
                     "cn": lambda: np.asarray(M["cn"].newtons_method(g, x)),
                     "cn_full": lambda: [np.asarray(y) for y in M["cn"].newtons_method(g, x, full_return=True)],
                     "bfgs": lambda: list(M["bis"].closest_local_minimum(g, x))}[h]

    @staticmethod
    def judge(a, got, ctx):
        f, m, c = quad(a)
        h = a["how"]
        if h in ("cn", "cn_full"):
            z = got[0] if h == "cn_full" else got
            if z is None or np.asarray(z).dtype == object:
                ctx.count("newton.gave_up")  # its second differences are too noisy for a far start: no claim
                return
            if a.get("m") and np.linalg.cond(m) > 50:
                return
            near(ctx, "newton", z, c, 1e-2, h)
        elif h == "multi":
            # it stops where the value falls under the tolerance: only sound for objectives with minimum 0
            pass
        elif h == "bfgs":
            near(ctx, "newton", got[0], c, 1e-4, h)
            near(ctx, "newton", got[1], a["k"], 1e-6, h)
        else:
            near(ctx, "newton", got, c, 1e-4, h)


@ask("newton.system")
class _:
    @staticmethod
    def gen(rng):
        n = rng.choice([1, 2, 3, 4])
        kind = rng.choice(["dense", "dense", "permuted", "bent"])
        m = [[r(rng, -2, 2) for _ in range(n)] for _ in range(n)]
        p = list(range(n))
        rng.shuffle(p)
        if kind == "permuted":
            m = [[(1.5 if p[i] == j else 0.0) for j in range(n)] for i in range(n)]
        else:
            for i in range(n):
                m[i][p[i]] += 5.0 if m[i][p[i]] >= 0 else -5.0
        return {"m": m, "c": [r(rng, -2, 2) for _ in range(n)], "x": [r(rng, -4, 4) for _ in range(n)],
                "bend": 0.02 if kind == "bent" else 0.0}

    @staticmethod
    def make(a, hook):
        m, c = np.array(a["m"], float), np.array(a["c"], float)
        x = np.array(a["x"], float)
        b = a["bend"]
        f = hook(lambda y: m @ (y - c) + b * (y - c) ** 2)
        j = hook(lambda y: m + np.diag(2 * b * (y - c)))
        return [x, m, c], lambda: np.asarray(M["cn"].newton_method2(f, j, x))

    @staticmethod
    def judge(a, got, ctx):
        if isinstance(got, Exception):
            if a["bend"]:
                return
            raise got
        m, c = np.array(a["m"]), np.array(a["c"])
        res = m @ (got - c) + a["bend"] * (got - c) ** 2
        near(ctx, "newton.system", res, np.zeros(len(c)), 1e-5)


@ask("bounded")
class _(Quad):
    @classmethod
    def gen(cls, rng):
        n = rng.choice(cls.dims)
        a = quad_args(rng, n)
        a["b"] = [sorted([r(rng, -5, 5), r(rng, -5, 5)]) for _ in range(n)]
        if rng.chance(0.4):
            a["b"] = [[-6.0, 6.0]] * n
        return a

    @staticmethod
    def make(a, hook):
        f, m, c = quad(a)
        x = np.array(a["x"])
        b = [tuple(y) for y in a["b"]]
        return [x, b], lambda: M["bd"].bounded_newtons_method(hook(f), x, b, no_warn=True)

    @staticmethod
    def judge(a, got, ctx):
        f, m, c = quad(a)
        if got is None:
            ctx.count("bounded.gave_up")
            return
        lo, hi = np.array(a["b"]).T
        start = np.minimum(np.maximum(np.array(a["x"]), lo), hi)
        ctx.check(bool(np.all(got >= lo) and np.all(got <= hi)), "bounded:outside", lambda: f"{got} outside {a['b']}")
        ctx.check(f(got) <= f(start) + 1e-9, "bounded:worse", lambda: f"f{got} = {f(got)}, at the start {f(start)}")
        if np.all(c > lo + 1e-3) and np.all(c < hi - 1e-3) and a["b"][0] == [-6.0, 6.0]:
            near(ctx, "bounded", got, c, 1e-3)


@ask("line_search")
class _(Quad):
    @classmethod
    def gen(cls, rng):
        a = quad_args(rng, rng.choice(cls.dims))
        a["how"] = rng.choice(["bounded", "wolfe"])
        a["s"] = r(rng, 0.01, 3)
        a["back"] = rng.chance(0.1)
        return a

    @staticmethod
    def make(a, hook):
        f, m, c = quad(a)
        x = np.array(a["x"])
        d = -2 * m @ (x - c) * a["s"] * (-1 if a["back"] else 1)
        g = hook(lambda y: 2 * m @ (np.asarray(y) - c))
        lo, hi = np.full(len(c), -6.0), np.full(len(c), 6.0)
        if a["how"] == "bounded":
            return [x, d, lo, hi], lambda: list(M["bd"].line_search(hook(f), g, x, d, lo, hi))
        return [x, d], lambda: list(M["bd"].line_search_strong_wolfe(hook(f), g, x, d))

    @staticmethod
    def judge(a, got, ctx):
        f, m, c = quad(a)
        x = np.array(a["x"])
        alpha, y, ok = got
        y = np.asarray(y, float)
        if a["back"]:
            ctx.check(not ok or np.allclose(x, c), "line_search:uphill", "an ascent direction was accepted")
        if a["how"] == "bounded":
            ctx.check(bool(np.all(np.abs(y) <= 6.0)), "line_search:outside", lambda: f"{y}")
        if ok:
            ctx.check(f(y) <= f(x) + 1e-9, "line_search:worse", lambda: f"{f(y)} > {f(x)}")


@ask("min1d")
class _:
    @staticmethod
    def gen(rng):
        lo = r(rng, -4, 2)
        return {"c": r(rng, -4, 4), "lo": lo, "hi": lo + r(rng, 0.2, 5), "tol": rng.choice([1e-2, 1e-4, 1e-6]),
                "shape": rng.choice(["quad", "abs", "quart", "skew"]),
                "how": rng.choice(["recursive_divide_and_conquer_min", "recursive_divide_and_conquer_max",
                                   "iterative_divide_and_conquer_min"])}

    @staticmethod
    def f(a):
        c = a["c"]
        s = -1.0 if a["how"].endswith("max") else 1.0
        return {"quad": lambda t: s * (t - c) ** 2, "abs": lambda t: s * abs(t - c), "quart": lambda t: s * (t - c) ** 4,
                "skew": lambda t: s * ((t - c) * 3 if t > c else (c - t))}[a["shape"]]

    @classmethod
    def make(cls, a, hook):
        b = (a["lo"], a["hi"])
        return [b], lambda: list(getattr(M["dac"], a["how"])(hook(cls.f(a)), b, a["tol"]))

    @classmethod
    def judge(cls, a, got, ctx):
        best = min(max(a["c"], a["lo"]), a["hi"])
        f = cls.f(a)
        slack = a["tol"] if a["shape"] in ("abs", "skew") else a["tol"] + {"quad": 1e-5, "quart": 1e-2}[a["shape"]]
        near(ctx, "min1d", got[0], best, slack * 1.01, a["how"])
        near(ctx, "min1d", got[1], f(got[0]), 0.0, "the value")


@ask("min2d")
class _:
    @staticmethod
    def gen(rng):
        n = rng.choice([2, 2, 3])
        b = []
        for _ in range(n):
            lo = r(rng, -4, 1)
            b.append([lo, lo + r(rng, 0.5, 6)])
        how = rng.choice(["plain", "vectorized", "all"]) if n == 2 else "plain"
        return {"b": b, "c": [r(rng, x - 0.5, y + 0.5) for x, y in b], "d": [r(rng, 0.5, 3) for _ in range(n)], "how": how,
                "tol": rng.choice([1e-3, 1e-5])}

    @staticmethod
    def make(a, hook):
        c, d = a["c"], a["d"]
        f = hook(lambda *x: sum(w * (y - z) ** 2 for w, y, z in zip(d, x, c)))
        b = [tuple(x) for x in a["b"]]
        D = M["dac"]
        if a["how"] == "vectorized":
            bb = [np.array([[x[0], x[0] + 0.1], [x[1], x[1] + 0.1]]) for x in a["b"]]
            return bb, lambda: [np.array(y) for y in D.divide_and_conquer_min_2d_vectorized(f, bb[0], bb[1], a["tol"])]
        if a["how"] == "all":
            return b, lambda: [list(map(float, y)) for y in D.find_all_minima(f, b[0], b[1], grid_density=3, tol=a["tol"])]
        if len(b) == 3:
            return b, lambda: list(D.divide_and_conquer_min_3d(f, *b, tol=a["tol"]))
        return b, lambda: list(D.divide_and_conquer_min_2d(f, *b, tol=a["tol"]))

    @staticmethod
    def judge(a, got, ctx):
        best = [min(max(c, x), y) for c, (x, y) in zip(a["c"], a["b"])]
        if a["how"] == "all":
            inside = all(x + 0.01 < c < y - 0.01 for c, (x, y) in zip(a["c"], a["b"]))
            if inside:
                ctx.check(len(got) == 1, "min2d:count", lambda: f"{len(got)} minima of a bowl: {got}")
                near(ctx, "min2d", got[0][:2], a["c"], 20 * a["tol"] + 1e-3, "all")
            return
        if a["how"] == "vectorized":
            for j in range(2):
                bj = [(x + 0.1 * j, y + 0.1 * j) for x, y in a["b"]]
                for i in range(2):
                    ctx.check(bj[i][0] - 1e-9 <= got[i][j] <= bj[i][1] + 1e-9, "min2d:outside", lambda: f"{got}")
            return
        for x, (lo, hi) in zip(got, a["b"]):
            ctx.check(lo - 1e-12 <= x <= hi + 1e-12, "min2d:outside", lambda: f"{got} outside {a['b']}")
        if len(got) == 2:  # in space the candidates leave out twelve of the edges and faces: a heuristic
            near(ctx, "min2d", got, best, JUDGE_MIN2D * a["tol"] + 1e-9, a["how"])


JUDGE_MIN2D = 3


@ask("roots")
class _:
    @staticmethod
    def gen(rng):
        how = rng.choice(["scan", "bracket", "bisect2d"])
        c = sorted(rng.sample([x / 4 for x in range(-9, 10)], rng.choice([1, 2, 3]))) if how == "scan" else [r(rng, -2, 2)]
        return {"how": how, "c": [x + 0.0037 for x in c], "lo": -3.0, "hi": 3.0, "k": r(rng, 0.5, 2)}

    @staticmethod
    def f(a):
        def f(t):
            v = a["k"]
            for c in a["c"]:
                v *= t - c
            return v
        return f

    @classmethod
    def make(cls, a, hook):
        f = hook(cls.f(a))
        if a["how"] == "scan":
            return [], lambda: [list(x) if isinstance(x, tuple) else x for x in M["bis"].bisection1d(f, 0.01, a["lo"], a["hi"])]
        if a["how"] == "bracket":
            return [], lambda: list(M["dac"].test_all_roots(f, (a["lo"], a["hi"]), 1e-4))
        g = hook(lambda x, y: a["k"] * (x + y - a["c"][0]))
        return [], lambda: M["bis"].bisection_2d(g, (-2.0, 2.0), (-2.0, 2.0), 1e-5)

    @classmethod
    def judge(cls, a, got, ctx):
        if a["how"] == "scan":
            roots, least = got
            near(ctx, "roots", [x[0] for x in roots], a["c"], 0.0101, "scan")
            return
        if a["how"] == "bracket":
            near(ctx, "roots", sorted(got), a["c"], 2e-3, "bracket")
            return
        ctx.check(got is not None, "roots:none", "no point of a line through the box")
        near(ctx, "roots", sum(np.asarray(got, float)), a["c"][0], 1e-3, "bisect2d")


@ask("integral")
class _:
    @staticmethod
    def gen(rng):
        return {"p": [r(rng, -3, 3) for _ in range(rng.choice([1, 2, 3, 5, 7]))], "a": r(rng, -2, 1), "w": r(rng, 0.1, 3),
                "how": rng.choice(["romberg", "romberg", "length", "length_fine", "prime", "prime_many", "at_length"])}

    @staticmethod
    def make(a, hook):
        p, lo, hi = np.array(a["p"]), a["a"], a["a"] + a["w"]
        f = lambda t: float(np.polynomial.polynomial.polyval(t, p))  # noqa: E731
        h = a["how"]
        if h == "romberg":
            return [p], lambda: M["rom"].romberg1d(hook(f), lo, hi)
        d = hook(lambda t: np.array([f(t), 1.0, 0.5]))
        if h == "length":
            return [p], lambda: M["num"].evaluate_length(d, lo, hi)[0]
        if h == "length_fine":
            return [p], lambda: M["num"].evaluate_length(d, lo, hi, tol=1e-7)[0]
        v = hook(lambda t: np.array([f(t), 1.0]))
        if h == "prime":
            return [p], lambda: M["prime"].Prime(v)(hi, t0=lo)
        if h == "prime_many":
            ts = np.linspace(lo, hi, 3)
            return [p, ts], lambda: M["prime"].Prime(v)(ts, t0=lo)
        straight = hook(lambda t: np.array([3.0, a["p"][0], 1.0]))
        return [p], lambda: float(M["num"].evaluate_parameter_from_length(straight, a["w"], 0.0, t1_limit=4.0))

    @staticmethod
    def judge(a, got, ctx):
        p, lo, hi = np.array(a["p"]), a["a"], a["a"] + a["w"]
        P = np.polynomial.polynomial
        prim = lambda t: P.polyval(t, P.polyint(p)) - P.polyval(lo, P.polyint(p))  # noqa: E731
        h = a["how"]
        if h == "romberg":
            near(ctx, "integral", got, prim(hi), 1e-5 * (1 + abs(prim(hi))), h)
        elif h == "prime":
            near(ctx, "integral", got, [prim(hi), hi - lo], 1e-6, h)
        elif h == "prime_many":
            near(ctx, "integral", got, [[prim(t), t - lo] for t in np.linspace(lo, hi, 3)], 1e-6, h)
        elif h == "at_length":
            near(ctx, "integral", got, a["w"] / math.sqrt(10.0 + a["p"][0] ** 2), 1e-5, h)
        else:
            ts, w = np.polynomial.legendre.leggauss(20)
            edges = np.linspace(lo, hi, 101)
            half = (hi - lo) / 200
            t = (edges[:-1, None] + half) + half * ts[None, :]
            truth = float(np.sum(w[None, :] * np.sqrt(P.polyval(t, p) ** 2 + 1.25))) * half
            near(ctx, "integral", got, truth, (0.03 if h == "length" else 1e-5) * (1 + truth), h)


@ask("implicit.point")
class _:
    @staticmethod
    def gen(rng):
        how = rng.choice(["curve", "curve2", "surface", "plane", "pair", "pair_no_err", "raster"])
        n = 2 if how in ("curve", "curve2", "raster") else 3
        ang, elev = r(rng, 0, 6.2), r(rng, -1, 1)
        rad = r(rng, 0.5, 3)
        d = [math.cos(ang) * math.cos(elev), math.sin(ang) * math.cos(elev), math.sin(elev)] if n == 3 else [math.cos(ang), math.sin(ang)]
        return {"how": how, "c": [r(rng, -2, 2) for _ in range(n)], "r": rad, "d": d, "s": r(rng, 0.4, 2.5),
                "grad": rng.chance(0.5), "sq": rng.chance(0.3), "r2": rad * r(rng, 0.7, 1.2), "off": r(rng, 0.5, 0.9)}

    @staticmethod
    def make(a, hook):
        c, rad = np.array(a["c"]), a["r"]
        if a["sq"]:
            f = lambda p: float((p - c) @ (p - c) - rad * rad)  # noqa: E731
            g = lambda p: 2 * (p - c)  # noqa: E731
        else:
            f = lambda p: float(np.linalg.norm(p - c) - rad)  # noqa: E731
            g = lambda p: (p - c) / np.linalg.norm(p - c)  # noqa: E731
        f, g = hook(f), hook(g)
        x = c + np.array(a["d"]) * rad * a["s"]
        I = M["ip"]
        kw = {"grad": g} if a["grad"] else {}
        h = a["how"]
        if h == "curve":
            return [x, c], lambda: I.curve_point(f, x, 1e-5, **kw)
        if h == "curve2":
            return [x, c], lambda: I._curve_point2(f, x, 1e-6, **kw)
        if h == "surface":
            return [x, c], lambda: I.surface_point(f, x, **kw)
        if h == "plane":
            return [x, c], lambda: list(I.surface_plane(f, x, kw.get("grad")))
        if h == "raster":
            return [c], lambda: M["mar"].raster_algorithm_2d(
                hook(lambda p: float(math.hypot(p[0] - c[0], p[1] - c[1]) - rad)), c[0] - rad - 0.4, c[0] + rad + 0.4,
                c[1] - rad - 0.4, c[1] + rad + 0.4, 9, 9, gamma=1.0, **kw)
        c2 = c + np.array([a["off"] * (rad + a["r2"]), 0, 0])
        f2 = hook(lambda p: float(np.linalg.norm(p - c2) - a["r2"]))
        g2 = hook(lambda p: (p - c2) / np.linalg.norm(p - c2))
        if h == "pair":
            return [x, c, c2], lambda: I.intersection_curve_point(f, f2, x, g, g2, tol=1e-8)
        return [x, c, c2], lambda: list(I.intersection_curve_point(f, f2, x, g, g2, tol=1e-8, no_err=True, return_grads=False))

    @staticmethod
    def judge(a, got, ctx):
        h = a["how"]
        c, rad = np.array(a["c"]), a["r"]
        if isinstance(got, Exception):
            if h == "pair" and isinstance(got, (ValueError, np.linalg.LinAlgError)) and "convergence" in str(got):
                return
            raise got
        on = lambda p: abs(np.linalg.norm(np.asarray(p, float) - c) - rad)  # noqa: E731
        if h == "pair_no_err":
            if not got[0]:
                return
            got = got[1]
            h = "pair"
        if h == "plane":
            p, n, t1, t2 = (np.asarray(y, float) for y in got)
            ctx.check(on(p) < 1e-4, "implicit.point:off", lambda: f"{p} lies {on(p)} off")
            near(ctx, "implicit.point", n, (p - c) / np.linalg.norm(p - c), 1e-3, "the normal")
            near(ctx, "implicit.point", [n @ t1, n @ t2, t1 @ t2], [0, 0, 0], 1e-9, "the frame")
            return
        pts = got if h == "raster" else [got]
        for p in pts:
            if np.all(np.isfinite(p)):
                ctx.check(on(p) < 2e-3, "implicit.point:off", lambda: f"{h}: {p} lies {on(p)} off")
        ctx.check(h == "pair" or np.all(np.isfinite(got)), "implicit.point:nan", lambda: f"{got}")
        if h == "pair" and np.all(np.isfinite(got)):
            c2 = c + np.array([a["off"] * (rad + a["r2"]), 0, 0])
            e = abs(np.linalg.norm(got - c2) - a["r2"])
            ctx.check(e < 1e-5, "implicit.point:off", lambda: f"{got} lies {e} off the second surface")
        if h == "raster":
            ctx.check(len(got) > 0, "implicit.point:none", "no point near a circle")


@ask("marching")
class _:
    @staticmethod
    def gen(rng):
        how = rng.choice(["curve", "pair", "pair_callback", "pair_bounds"])
        rad = r(rng, 0.8, 2)
        return {"how": how, "c": [r(rng, -2, 2) for _ in range(3)], "r": rad, "r2": rad * r(rng, 0.8, 1.2), "off": r(rng, 0.4, 0.8),
                "step": rng.choice([0.1, 0.2, 0.3]), "ang": r(rng, 0, 6.2), "grad": rng.chance(0.5)}

    @staticmethod
    def make(a, hook):
        c, rad = np.array(a["c"]), a["r"]
        if a["how"] == "curve":
            c = c[:2]
            f = hook(lambda p: float(np.linalg.norm(p - c) - rad))
            g = hook(lambda p: (p - c) / np.linalg.norm(p - c))
            x = c + 1.1 * rad * np.array([math.cos(a["ang"]), math.sin(a["ang"])])
            return [c, x], lambda: np.array(M["mar"].marching_implicit_curve_points(
                f, x, max_points=None, step=a["step"], grad=g if a["grad"] else None))
        c2 = c + np.array([a["off"] * (rad + a["r2"]), 0, 0])
        f = hook(lambda p: float(np.linalg.norm(p - c) - rad))
        g = hook(lambda p: (p - c) / np.linalg.norm(p - c))
        f2 = hook(lambda p: float(np.linalg.norm(p - c2) - a["r2"]))
        g2 = hook(lambda p: (p - c2) / np.linalg.norm(p - c2))
        x = (c + c2) / 2 + rad * 0.8 * np.array([0, math.cos(a["ang"]), math.sin(a["ang"])])
        kw = {}
        seen = []
        if a["how"] == "pair_callback":
            kw["point_callback"] = hook(lambda p: seen.append(np.array(p)))
        if a["how"] == "pair_bounds":
            kw["bounds"] = np.array([c - 9, c + 9])

        def go():
            seen.clear()
            out = M["mar"].marching_intersection_curve_points(f, f2, g, g2, x, step=a["step"], max_points=4000, **kw)
            return [np.array(out), np.array(seen)]

        return [c, c2, x], go

    @staticmethod
    def judge(a, got, ctx):
        c, rad = np.array(a["c"]), a["r"]
        if a["how"] == "curve":
            pts, c = got, c[:2]
            loop, centre = rad, c
            uv = (pts - c) / rad
        else:
            pts, seen = got
            c2 = c + np.array([a["off"] * (rad + a["r2"]), 0, 0])
            d = np.linalg.norm(c2 - c)
            x = (d * d + rad * rad - a["r2"] ** 2) / (2 * d)
            loop = math.sqrt(max(rad * rad - x * x, 0))
            if loop < 2.5 * a["step"]:
                return
            e = np.abs(np.linalg.norm(pts - c2, axis=1) - a["r2"]).max()
            ctx.check(e < 1e-4, "marching:off", lambda: f"{e} off the second surface")
            uv = (pts - (c + np.array([x, 0, 0])))[:, 1:] / loop
            if a["how"] == "pair_callback":
                ctx.check(same(pts, seen), "marching:callback", "the callback saw other points than were returned")
        if loop < 2.5 * a["step"]:
            return
        e = np.abs(np.linalg.norm(pts - c, axis=1) - rad).max()
        ctx.check(e < 2e-3, "marching:off", lambda: f"{e} off the curve")
        ang = np.sort(np.arctan2(uv[:, 1], uv[:, 0]))
        gap = max(np.diff(np.append(ang, ang[0] + 2 * math.pi))) * loop
        ctx.check(gap < 2.2 * a["step"], "marching:gap", lambda: f"the loop of radius {loop} has a gap of {gap}, step {a['step']}")


KINDS = sorted(ASK)


def generate(rng, config):
    case = _asks.plan(rng, config, KINDS, lambda g, k: ASK[k].gen(g))
    case["env"] = base_env(rng)
    return case


def make(k, a, hook):
    return ASK[k].make(a, hook)


def judge(k, a, got, ctx):
    if isinstance(got, Exception) and k not in ("newton.system", "implicit.point"):
        raise got
    ASK[k].judge(a, got, ctx)


def execute(case, ctx):
    _asks.run(case, ctx, make, judge)
