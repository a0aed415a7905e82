"""C20: the intersection of two implicit surfaces is traced completely: every loop once, every point on both surfaces."""
import importlib
import json
import math

from scipy.interpolate import BSpline
from scipy.spatial.transform import Rotation

from props import _asks
from props._util import *
from sim import sched

PROP = "C20"
LEVEL = "exploration"
CONFIGS = ["plain", "concurrent", "faults", "plain"]
PLAN = {"quick": {"seeds": 700, "seconds": 60, "timeout": 90}, "thorough": {"seeds": 20000, "seconds": 400, "timeout": 90}}
STATES = "distinct (question, calls of the caller's function, loops) tuples and interleavings"
REAL = ["mmcore.numeric.intersection.implicit_implicit", "mmcore.numeric.marching", "mmcore.numeric.algorithms.implicit_point",
        "mmcore.geom.primitives", "mmcore.geom.implicit", "mmcore.geom.curves.knot"]
STUB = ["a caller's own sphere and cylinder are small classes of the harness"]
ASSUMPTIONS = ["the loops are closed, smooth and lie at least a step apart, and the surfaces cross at a clear angle"]

M = {}
POOL = {}


def setup():
    for k, n in [("prim", "geom.primitives"), ("imp", "geom.implicit"), ("ii", "numeric.intersection.implicit_implicit")]:
        M[k] = importlib.import_module("mmcore." + n)

    class Own(M["imp"].Implicit3D):
        """A caller's round body."""

        def __init__(self, fun, box, grad=None):
            super().__init__()
            self.fun, self.box = fun, box
            if grad is not None:
                self.gradient = grad

        def implicit(self, v):
            return self.fun(v)

        def bounds(self):
            return self.box

    M["Own"] = Own


# -- pairs of surfaces with known loops -----------------------------------------------------------------------------
def scene(rng):
    u = rng.uniform
    how = rng.choice(["balls", "ball rod", "rods", "ball pipe", "balls", "ball rod"])
    s = {"how": how, "q": [0.0, 0.0, 0.0] if rng.chance(0.4) else [round(u(-3, 3), 2) for _ in "xyz"],
         "o": [0.0, 0.0, 0.0] if rng.chance(0.3) else [round(u(-3, 3), 2) for _ in "xyz"], "own": rng.chance(0.35), "swap": rng.chance(0.3)}
    if how == "balls":
        r1, r2 = u(0.6, 2), u(0.6, 2)
        d = abs(r1 - r2) + 2 * min(r1, r2) * u(0.25, 0.75)
        s["n"] = [r1, r2, d]
        z = (d * d + r1 * r1 - r2 * r2) / 2 / d
        size = math.sqrt(max(r1 * r1 - z * z, 0.01))
    elif how == "rods":
        r2 = u(0.7, 2)
        size = r1 = r2 * u(0.4, 0.75)
        s["n"] = [r1, r2]
    else:
        big = u(0.8, 2)
        size = r = big * u(0.3, 0.7)
        s["n"] = [big, r]
        if how == "ball pipe":
            w = r * u(0.3, 0.6)
            w = min(w, 2 * (0.82 * big - r))
            s["n"].append(w)
            size = min(r - w / 2, w)
    s["n"] = [round(x, 4) for x in s["n"]]
    s["step"] = round(size * rng.choice([0.25, 0.4, 0.5, 0.5]), 4)
    s["depth"] = rng.choice([3] * 8 + [4, 0])  # 0: left to the first question
    return s


def frame(s):
    q = Rotation.from_rotvec(s["q"]).as_matrix()
    o = np.array(s["o"], float)
    return lambda *p: q @ np.array(p, float) + o


def loops(s, m=120):
    P = frame(s)
    th = np.linspace(0, 2 * math.pi, m)
    n = s["n"]
    if s["how"] == "balls":
        r1, r2, d = n
        z = (d * d + r1 * r1 - r2 * r2) / 2 / d
        r = math.sqrt(r1 * r1 - z * z)
        return [np.array([P(r * math.cos(t), r * math.sin(t), z) for t in th])]
    if s["how"] == "rods":
        return [np.array([P(n[0] * math.cos(t), n[0] * math.sin(t), k * math.sqrt(n[1] ** 2 - (n[0] * math.sin(t)) ** 2)) for t in th]) for k in (-1, 1)]
    rs = [n[1]] if s["how"] == "ball rod" else [n[1] - n[2] / 2, n[1] + n[2] / 2]
    return [np.array([P(r * math.cos(t), r * math.sin(t), k * math.sqrt(n[0] ** 2 - r * r)) for t in th]) for r in rs for k in (-1, 1)]


def measure(s):
    """The two signed distances, from the definition."""
    P = frame(s)
    o, z, x = P(0, 0, 0), P(0, 0, 1) - P(0, 0, 0), P(1, 0, 0) - P(0, 0, 0)
    n = s["n"]

    def ball(c, r):
        return lambda p: np.linalg.norm(p - c, axis=-1) - r

    def rod(c, a, r):
        def f(p):
            d = p - c
            return np.linalg.norm(d - (d @ a)[..., None] * a, axis=-1) - r
        return f

    if s["how"] == "balls":
        return ball(o, n[0]), ball(P(0, 0, n[2]), n[1])
    if s["how"] == "rods":
        return rod(o, z, n[0]), rod(o, x, n[1])
    if s["how"] == "ball rod":
        return ball(o, n[0]), rod(o, z, n[1])
    f = rod(o, z, n[1])
    return ball(o, n[0]), lambda p: np.abs(f(p)) - n[2] / 2


def bodies(s, hook):
    P = frame(s)
    n = s["n"]
    m = M["prim"]
    far = 1.3 * max(n)
    if s["how"] == "balls":
        a, b = m.Sphere(P(0, 0, 0), n[0]), m.Sphere(P(0, 0, n[2]), n[1])
    elif s["how"] == "rods":
        a, b = m.ImplicitCylinder(P(0, 0, -far), P(0, 0, far), n[0]), m.ImplicitCylinder(P(-far, 0, 0), P(far, 0, 0), n[1])
    elif s["how"] == "ball rod":
        a, b = m.Sphere(P(0, 0, 0), n[0]), m.ImplicitCylinder(P(0, 0, -far), P(0, 0, far), n[1])
    else:
        a, b = m.Sphere(P(0, 0, 0), n[0]), m.Tube(P(0, 0, -far), P(0, 0, far), n[1], n[2])
    if s["own"]:
        # the first body is the caller's own code
        f = measure(s)[0]
        a = M["Own"](hook(lambda v: float(f(np.asarray(v)))), tuple(map(tuple, a.bounds())),
                     hook(a.gradient) if s["how"] == "balls" else None)
    return (b, a) if s["swap"] else (a, b)


def curve(s, hook):
    """Scenes without the caller's code are shared between the questions of a run."""
    def build():
        live = []

        def once_built(f):
            g = hook(f)
            return lambda v: (g if live else f)(v)

        c = M["ii"].ImplicitIntersectionCurve(*bodies(s, once_built))
        if s["depth"]:
            c.build_tree(s["depth"])  # the cells are judged by C12; the caller's code is watched from here on
        live.append(1)
        return c

    if s["own"]:
        return build()
    key = json.dumps([s[k] for k in ("how", "q", "o", "n", "swap", "depth")])
    if key not in POOL:
        POOL[key] = build()
    return POOL[key]


class Seen:
    """What tracing must leave alone."""

    def __init__(self, *shapes):
        self.shapes = shapes

    def __iter__(self):
        for x in self.shapes:
            if hasattr(x, "astuple"):
                yield list(x.astuple())
            else:
                yield np.array(x.bounds())


def judge_loops(s, traces, ctx, step=None, tag="trace"):
    step = step or s["step"]
    f, g = measure(s)
    want = loops(s)
    traces = [np.asarray(t, float) for t in traces]
    ctx.check(len(traces) == len(want), f"{tag}:loops", lambda: f"{len(traces)} loops traced, {len(want)} there are ({s})")
    hit = set()
    for t in traces:
        e = max(float(np.abs(f(t)).max()), float(np.abs(g(t)).max()))
        ctx.check(e < 2e-5, f"{tag}:off", lambda: f"a traced point is {e} off a surface ({s})")
        d = np.linalg.norm(np.diff(np.vstack([t, t[:1]]), axis=0), axis=1)
        ctx.check(float(d.max()) < 1.6 * step, f"{tag}:gap", lambda: f"a gap of {d.max()} at step {step} ({s})")
        near = [float(np.linalg.norm(w - t[0], axis=1).min()) for w in want]
        k = int(np.argmin(near))
        hit.add(k)
        length = float(np.linalg.norm(np.diff(want[k], axis=0), axis=1).sum())
        ctx.check(0.8 < float(d.sum()) / length < 1.06, f"{tag}:length", lambda: f"a loop of length {length} traced over {d.sum()} ({s})")
        far = max(float(np.linalg.norm(t - p, axis=1).min()) for p in want[k])
        ctx.check(far < 1.1 * step, f"{tag}:part", lambda: f"a part of the loop is {far} from any traced point, step {step} ({s})")
    ctx.check(len(hit) == len(want), f"{tag}:twice", lambda: f"only {len(hit)} of {len(want)} loops are traced ({s})")


ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


def tolist(traces):
    return [np.array(t, float) for t in traces]


@ask("trace")
class _:
    @staticmethod
    def gen(rng):
        return {"s": scene(rng), "via": rng.choice(["iterator", "iterate", "iterate", "one worker", "spline"])}

    @staticmethod
    def make(a, hook):
        s = a["s"]
        c = curve(s, hook)
        m = M["ii"]
        go = {"iterator": lambda: tolist(m.ImplicitIntersectionCurveIterator(c, step=s["step"])),
              "iterate": lambda: tolist(m.iterate_curves(c, step=s["step"])),
              "one worker": lambda: tolist(m.iterate_curves(c, step=s["step"], workers=1)),
              "spline": lambda: [[np.array(p), np.array(k), int(d)] for p, k, d in m.iterate_curves(c, step=s["step"], return_nurbs=True)]}[a["via"]]
        return [Seen(c.surf1, c.surf2)], go

    @staticmethod
    def judge(a, got, ctx):
        s = a["s"]
        if a["via"] != "spline":
            judge_loops(s, got, ctx)
            return
        f, g = measure(s)
        want = loops(s)
        ctx.check(len(got) == len(want), "spline:loops", lambda: f"{len(got)} splines, {len(want)} loops ({s})")
        for p, k, d in got:
            p, k = np.asarray(p), np.asarray(k)
            ctx.check(d == 3 and len(k) == len(p) + 4, "spline:sizes", lambda: f"{len(p)} points, {len(k)} knots, degree {d}")
            t = np.linspace(k[3], k[-4], 6 * len(p))
            x = BSpline(k, p, 3)(t)
            e = max(float(np.abs(f(x)).max()), float(np.abs(g(x)).max()))
            ctx.check(e < 0.3 * s["step"], "spline:off", lambda: f"the spline leaves the surfaces by {e}, step {s['step']} ({s})")
            near = min(max(float(np.linalg.norm(x - q, axis=1).min()) for q in w) for w in want)
            ctx.check(near < 1.1 * s["step"], "spline:part", lambda: f"the spline stays {near} from a part of its loop ({s})")


@ask("resume")
class _:
    """The caller's body fails during one loop; asked again, the same iterator goes on as if nothing had happened."""

    @staticmethod
    def gen(rng):
        s = scene(rng)
        s["own"], s["depth"] = True, 3
        return {"s": s, "fail": [round(rng.random(), 3) for _ in range(rng.choice([1, 1, 2]))], "kind": rng.choice(["callback", "interrupt", "nomem"])}

    @staticmethod
    def make(a, hook):
        s = a["s"]
        box = {"n": 0, "at": set()}

        def failing(f):
            f = hook(f)

            def called(v):
                box["n"] += 1
                if box["n"] in box["at"]:
                    box["at"].discard(box["n"])
                    box["raised"] = sched.make_exception(a["kind"])
                    raise box["raised"]
                return f(v)
            return called

        def go():
            c = curve(s, failing)
            it = M["ii"].ImplicitIntersectionCurveIterator(c, step=s["step"])
            first = box["n"]
            whole = tolist(it)
            n = box["n"] - first
            it = M["ii"].ImplicitIntersectionCurveIterator(c, step=s["step"])
            box["at"] = {box["n"] + 1 + min(int(w * n), n - 1) for w in a["fail"]}
            again, lost = [], 0
            while True:
                try:
                    again.append(np.array(next(it), float))
                except StopIteration:
                    break
                except BaseException as e:  # noqa: BLE001
                    if e is not box.get("raised"):
                        raise
                    box["raised"] = None
                    lost += 1
            return [whole, again, lost, len(box["at"])]

        return [s["n"]], go

    @staticmethod
    def judge(a, got, ctx):
        whole, again, lost, left = got
        judge_loops(a["s"], whole, ctx)
        ctx.check(lost + left == len(set(a["fail"])) or lost > 0, "resume:swallowed", lambda: f"{lost} failures came out of {len(a['fail'])}")
        if lost:
            ctx.fault("callback_raise")
        ctx.check(same(again, whole), "resume:differs", lambda: f"{[len(x) for x in again]} points after a failure, {[len(x) for x in whole]} without ({a['s']})")


@ask("interleave")
class _:
    """Two iterators over one curve, advanced in turns."""

    @staticmethod
    def gen(rng):
        s = scene(rng)
        return {"s": s, "step2": round(s["step"] * rng.choice([1.0, 0.7]), 4), "turns": [rng.randrange(2) for _ in range(6)]}

    @staticmethod
    def make(a, hook):
        s = a["s"]
        c = curve(s, hook)

        def go():
            its = [M["ii"].iterate_curves(c, step=x) for x in (s["step"], a["step2"])]
            out = [[], []]
            for i in [*a["turns"], *[0] * 6, *[1] * 6]:
                try:
                    out[i].append(np.array(next(its[i]), float))
                except StopIteration:
                    pass
            return out

        return [Seen(c.surf1, c.surf2)], go

    @staticmethod
    def judge(a, got, ctx):
        judge_loops(a["s"], got[0], ctx, tag="interleave")
        judge_loops(a["s"], got[1], ctx, a["step2"], tag="interleave")


@ask("edited")
class _:
    """A body is edited; with its tree built anew, the curve is traced where the bodies now are."""

    @staticmethod
    def gen(rng):
        s = scene(rng)
        s["own"] = False
        to = scene(rng)
        for _ in range(20):
            if to["how"] == s["how"]:
                break
            to = scene(rng)
        if to["how"] != s["how"]:
            to = dict(s)
        to["swap"], to["own"] = s["swap"], False
        if to["how"] == "ball pipe":
            to["n"], to["step"] = s["n"], s["step"]  # its thickness stays
        return {"s": s, "to": to, "between": rng.choice(["trace", "tree", "nothing"])}

    @staticmethod
    def make(a, hook):
        s, to = a["s"], a["to"]

        def go():
            x, y = bodies(s, hook)
            c = M["ii"].ImplicitIntersectionCurve(x, y)
            before = None
            if a["between"] == "trace":
                c.build_tree(s["depth"] or 3)
                before = tolist(M["ii"].iterate_curves(c, step=s["step"]))
            elif a["between"] == "tree":
                c.build_tree(3)
            for have, want in zip((x, y), bodies(to, hook)):
                if isinstance(have, M["prim"].Sphere):
                    have.origin, have.radius = np.array(want.origin), want.radius
                else:
                    t = want.astuple()
                    have.start, have.end, have.radius = np.array(t[:3]), np.array(t[3:6]), t[6]
            c.build_tree(to["depth"] or 3)
            return [before, tolist(M["ii"].iterate_curves(c, step=to["step"])), np.array(c.bounds())]

        return [s["n"], to["n"]], go

    @staticmethod
    def judge(a, got, ctx):
        if got[0] is not None:
            judge_loops(a["s"], got[0], ctx)
        judge_loops(a["to"], got[1], ctx, tag="edited")
        for w in loops(a["to"]):
            lo, hi = np.asarray(got[2])
            ctx.check(bool(np.all(w > lo - 1e-9) and np.all(w < hi + 1e-9)), "edited:bounds", lambda: f"the curve leaves its bounds {lo}..{hi} ({a['to']})")


@ask("nearby")
class _:
    """Closest point, distance, tangent and frame next to the curve."""

    @staticmethod
    def gen(rng):
        s = scene(rng)
        return {"s": s, "at": [[round(rng.random(), 4), *[round(rng.uniform(-1, 1), 3) for _ in "xyz"]] for _ in range(3)], "off": rng.choice([0.3, 0.1, 0.02])}

    @staticmethod
    def points(a):
        s = a["s"]
        w = np.vstack(loops(s))
        k = a["off"] * s["step"]
        return [w[int(t * (len(w) - 1))] + k * np.array(d) for t, *d in a["at"]]

    @staticmethod
    def make(a, hook):
        c = curve(a["s"], hook)
        ps = ASK["nearby"].points(a)
        return [ps, Seen(c.surf1, c.surf2)], lambda: [[np.array(c.closest_point(p)), float(c.implicit(p)), np.array(c.tangent(p)), np.array(c.plane(p)),
                                                      np.array(c.gradient(p))] for p in ps]

    @staticmethod
    def judge(a, got, ctx):
        s = a["s"]
        f, g = measure(s)

        def slope(h, p):
            e = 1e-5
            return np.array([h(p + d) - h(p - d) for d in np.eye(3) * e]) / (2 * e)

        for p, (x, dist, tan, pln, grad) in zip(ASK["nearby"].points(a), got):
            x, tan, pln = map(np.asarray, (x, tan, pln))
            e = max(abs(float(f(x))), abs(float(g(x))))
            ctx.check(e < 1e-5, "nearby:off", lambda: f"the closest point is {e} off a surface ({s})")
            away = min(float(np.linalg.norm(w - p, axis=1).min()) for w in loops(s, 2000))
            have = float(np.linalg.norm(x - p))
            ctx.check(have < 1.5 * away + 0.02 * s["step"], "nearby:far", lambda: f"{have} away, the curve is {away} away ({s})")
            ctx.check(abs(dist - have) < 1e-9, "nearby:distance", lambda: f"implicit {dist}, distance {have}")
            ctx.check(float(np.abs(np.asarray(grad) - (p - x)).max()) < 1e-9, "nearby:gradient", lambda: f"{grad}")
            n = [slope(f, x), slope(g, x)]
            t = np.cross(*n)
            t /= np.linalg.norm(t)
            ctx.check(min(float(np.abs(tan.ravel() - t).max()), float(np.abs(tan.ravel() + t).max())) < 1e-3, "nearby:tangent", lambda: f"{tan}, expected +-{t} ({s})")
            ctx.check(float(np.abs(pln[0] - x).max()) < 1e-9, "nearby:origin", lambda: f"{pln[0]}, expected {x}")
            ctx.check(float(np.abs(pln[1:] @ pln[1:].T - np.eye(3)).max()) < 1e-6, "nearby:frame", lambda: f"{pln} is not orthonormal")
            ctx.check(min(float(np.abs(pln[1] - t).max()), float(np.abs(pln[1] + t).max())) < 1e-3, "nearby:axis", lambda: f"{pln[1]}, expected +-{t}")


KINDS = sorted(ASK)


def generate(rng, config):
    case = _asks.plan(rng, config, KINDS, lambda g, k: ASK[k].gen(g), most=3)
    del case["asks"][2:]  # a single question takes long
    if "order" in case:
        del case["order"][3:]
    case["env"] = base_env(rng)
    return case


def make(k, a, hook):
    return ASK[k].make(a, hook)


def judge(k, a, got, ctx):
    if isinstance(got, Exception):
        raise got
    ASK[k].judge(a, got, ctx)


def execute(case, ctx):
    POOL.clear()
    _asks.run(case, ctx, make, judge, limit=4_000_000)
