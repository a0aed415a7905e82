"""C12: implicit shapes, their booleans and their cell trees against closed formulas for the state they are in."""
import copy
import itertools
import math

from props._util import *
from sim import sched
from sim.core import exception_violation

PROP = "C12"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 4000, "seconds": 40}, "thorough": {"seeds": 120000, "seconds": 420}}
STATES = "distinct (shape kinds, parameters of the shape asked, question, answer) tuples"
REAL = ["mmcore.geom.primitives", "mmcore.geom.implicit.implicit", "mmcore.geom.implicit.tree", "mmcore.numeric.fdm",
        "mmcore.geom.circle.Circle2D"]
STUB = ["shapes written by a user of the library (ball, box, disc, rectangle): their implicit() may raise or be preempted"]
ASSUMPTIONS = ["points have three (two) coordinates and cylinders a length: the compiled code does not check",
               "gradients are judged where the shape is smooth", "trees are judged in bounds that are not empty"]

POINT = {"sphere": ["origin"], "icyl": ["start", "end"], "tube": ["start", "end"], "cyl": ["start", "end"],
         "ball": ["origin"], "box": ["lo", "hi"], "disc": ["origin"], "rect": ["lo", "hi"], "circle": ["origin"]}
NUM = {"sphere": ["radius"], "icyl": ["radius"], "tube": ["radius"], "cyl": ["radius"], "ball": ["radius"], "box": [],
       "disc": ["radius"], "rect": [], "circle": ["r"]}
NATIVE = ("sphere", "icyl", "tube", "cyl")
PLANE = ("disc", "rect", "circle")
OPS = ("union", "inter", "sub")


def pt(rng, n, span=4):
    if rng.chance(0.3):
        return [float(rng.randrange(-span, span + 1)) for _ in range(n)]
    return [round(rng.uniform(-span, span), 4) for _ in range(n)]


def leaf(rng, plane):
    t = rng.choice(list(PLANE) if plane else ["sphere", "sphere", "icyl", "tube", "cyl", "ball", "box"])
    n = 2 if plane else 3
    p = {}
    if t in ("sphere", "ball", "disc", "circle"):
        p["origin"] = pt(rng, n)
        p["r" if t == "circle" else "radius"] = round(rng.uniform(0.3, 3), 3)
    elif t in ("box", "rect"):
        p["lo"] = pt(rng, n)
        p["hi"] = [round(x + rng.uniform(0.3, 4), 4) for x in p["lo"]]
    else:
        p["start"] = pt(rng, 3)
        p["end"] = other_end(rng, p["start"])
        p["radius"] = round(rng.uniform(0.3, 2), 3)
        if t == "tube":
            p["thickness"] = round(rng.uniform(0.1, 0.5), 3)
    return {"t": t, "p": p}


def other_end(rng, start):
    if rng.chance(0.5):
        d = [0.0, 0.0, 0.0]
        d[rng.randrange(3)] = rng.choice([-1, 1]) * round(rng.uniform(0.5, 5), 3)
    else:
        d = pt(rng, 3)
        if math.hypot(*d) < 0.4:
            d = [1.5, 0.5, -2.0]
    return [round(a + b, 4) for a, b in zip(start, d)]


def generate(rng, config):
    plane = rng.chance(0.3)
    shapes = [leaf(rng, plane) for _ in range(rng.choice([1, 2, 3]))]
    if rng.chance(0.75) and len(shapes) > 1 or plane:
        for _ in range(rng.choice([1, 1, 2, 3])):
            pick = [i for i, s in enumerate(shapes) if s["t"] != "circle"]
            if not pick:
                break
            shapes.append({"t": rng.choice(list(OPS)), "a": rng.choice(pick), "b": rng.choice(pick)})
    n = 2 if plane else 3

    def near_point(rng, s):
        while "p" not in s:
            s = shapes[s[rng.choice(["a", "b"])]]
        c = np.mean([s["p"][k] for k in POINT[s["t"]]], axis=0)
        return [round(float(x) + rng.uniform(-3, 3), 4) for x in c]

    def edit(rng):
        i = rng.choice([j for j, s in enumerate(shapes) if "p" in s])
        s = shapes[i]
        f = rng.choice(POINT[s["t"]] + NUM[s["t"]])
        if f in ("radius", "r"):
            v = round(rng.uniform(0.3, 3), 3)
        elif f in ("start", "end"):
            v = other_end(rng, s["p"]["end" if f == "start" else "start"])
        elif f in ("lo", "hi"):
            v = [round(x + rng.uniform(0.2, 1), 4) * 1.0 for x in s["p"][f]] if f == "hi" else [round(x - rng.uniform(0.2, 1), 4) for x in s["p"][f]]
        else:
            v = pt(rng, n)
        s["p"][f] = v  # the generator follows the edits, so that start and end stay apart
        return ["edit", i, f, v]

    first = copy.deepcopy(shapes)
    quiet = config == "concurrent" and rng.chance(0.4)  # no edits: trees may be asked for

    def op(rng, edits=True):
        if edits and rng.chance(0.3):
            return edit(rng)
        i = rng.randrange(len(shapes)) if rng.chance(0.5) else len(shapes) - 1
        s = shapes[i]
        k = rng.choice(["at", "at", "grad", "bounds", "bounds", "read", "many", "poke_in", "poke_out", "tree", "tree", "inside", "on"])
        if k in ("at", "grad", "inside", "on"):
            return [k, i, near_point(rng, s)]
        if k == "many":
            return [k, i, [near_point(rng, s) for _ in range(rng.choice([1, 2, 3, 5]))]]
        if k == "tree":
            return [k, i, rng.choice([0, 1, 1, 2] if not plane else [0, 1, 2, 3])]
        return [k, i]

    case = {"env": base_env(rng), "plane": plane, "shapes": first}
    if config == "concurrent":
        tasks = [[] for _ in range(rng.choice([2, 2, 3]))]
        for _ in range(rng.choice([4, 6, 9])):
            o = op(rng, edits=False)
            if o[0] in ("poke_in", "poke_out", "inside", "read") or o[0] == "tree" and not quiet:
                o = ["bounds", o[1]]
            rng.choice(tasks).append(o)
        if not quiet:
            for _ in range(rng.choice([1, 2, 3])):
                e = edit(rng)
                if shapes[e[1]]["t"] != "circle":  # plain attributes read one after the other
                    tasks[0].append(e)
        case["tasks"] = [t or [["bounds", 0]] for t in tasks]
        case["sched"] = pick_sched(rng)
    else:
        case["ops"] = [op(rng) for _ in range(rng.choice([3, 6, 12, 20]))]
        if config == "faults":
            for o in case["ops"]:
                if o[0] in ("at", "many", "tree", "grad", "bounds") and rng.chance(0.5):
                    o.append({"kind": rng.choice(["raise", "nomem", "interrupt", "line", "linemem"]), "where": round(rng.random(), 4)})
    return case


# ---------------------------------------------------------------- the reference

class Ref:
    def __init__(self, shapes):
        self.shapes = copy.deepcopy(shapes)

    def value(self, i, x):
        s = self.shapes[i]
        t = s["t"]
        if t in OPS:
            a, b = self.value(s["a"], x), self.value(s["b"], x)
            return min(a, b) if t == "union" else max(a, b) if t == "inter" else max(a, -b)
        p = s["p"]
        x = np.asarray(x, float)
        if t in ("sphere", "ball", "disc", "circle"):
            return float(np.linalg.norm(x - p["origin"])) - p.get("radius", p.get("r"))
        if t in ("box", "rect"):
            return box(p, x)
        d = np.subtract(p["end"], p["start"])
        w = x - p["start"]
        r = float(np.linalg.norm(w - (w @ d) / (d @ d) * d))
        return abs(p["radius"] - r) - p["thickness"] / 2 if t == "tube" else r - p["radius"]

    def bounds(self, i):
        s = self.shapes[i]
        t = s["t"]
        if t in OPS:
            (al, ah), (bl, bh) = self.bounds(s["a"]), self.bounds(s["b"])
            if t == "sub":
                return al, ah
            return (np.minimum(al, bl), np.maximum(ah, bh)) if t == "union" else (np.maximum(al, bl), np.minimum(ah, bh))
        p = s["p"]
        if t in ("sphere", "ball", "disc", "circle"):
            r = p.get("radius", p.get("r"))
            return np.subtract(p["origin"], r), np.add(p["origin"], r)
        if t in ("box", "rect"):
            return np.array(p["lo"]), np.array(p["hi"])
        d = np.subtract(p["end"], p["start"])
        r = p["radius"] + p.get("thickness", 0) / 2
        e = r * np.sqrt(np.maximum(0, 1 - d * d / (d @ d)))
        return np.minimum(p["start"], p["end"]) - e, np.maximum(p["start"], p["end"]) + e


def box(p, x):
    q = [max(l - v, v - h) for l, h, v in zip(p["lo"], p["hi"], x)]
    out = math.sqrt(sum(max(v, 0.0) ** 2 for v in q))
    return out + min(max(q), 0.0)


def steep(ref, i, x):
    """The unit gradient, or None where the shape is not smooth enough to say."""
    got = []
    for h in (2e-3, 1e-3, 1e-5):
        g = []
        for a in range(len(x)):
            hi, lo = list(x), list(x)
            hi[a] += h
            lo[a] -= h
            g.append((ref.value(i, hi) - ref.value(i, lo)) / (2 * h))
        got.append(np.array(g))
    if np.linalg.norm(got[2]) < 0.2 or np.max(np.abs(np.subtract(got[:2], got[2]))) > 1e-4:
        return None
    return got[2] / np.linalg.norm(got[2])


# ---------------------------------------------------------------- the run

def setup():
    import mmcore.geom.primitives  # noqa: F401
    import mmcore.geom.implicit.implicit  # noqa: F401
    import mmcore.geom.implicit.tree  # noqa: F401
    import mmcore.geom.circle  # noqa: F401


class Tick:
    """The user's code being called: counted, made to fail, preempted."""

    calls = 0
    fail_at = 0
    kind = "raise"
    raised = None

    @classmethod
    def reset(cls, fail_at=0, kind="raise"):
        cls.calls, cls.fail_at, cls.kind, cls.raised = 0, fail_at, kind, None

    @classmethod
    def tick(cls):
        cls.calls += 1
        if cls.calls == cls.fail_at:
            cls.raised = sched.make_exception({"raise": "callback"}.get(cls.kind, cls.kind))
            raise cls.raised
        sched.here()


def user_classes():
    from mmcore.geom.implicit.implicit import Implicit2D, Implicit3D

    def make(base, round_):
        class Shape(base):
            def __init__(self, p):
                super().__init__()
                self.p = p

            def implicit(self, v):
                Tick.tick()
                p = self.p
                if round_:
                    return float(np.linalg.norm(np.asarray(v, float) - p["origin"])) - p["radius"]
                return box(p, v)

            def bounds(self):
                Tick.tick()
                p = self.p
                if round_:
                    lo, hi = np.subtract(p["origin"], p["radius"]), np.add(p["origin"], p["radius"])
                else:
                    lo, hi = p["lo"], p["hi"]
                return tuple(map(float, lo)), tuple(map(float, hi))

            def edit(self, f, v):
                self.p = {**self.p, f: v}

        return Shape

    return {"ball": make(Implicit3D, True), "box": make(Implicit3D, False), "disc": make(Implicit2D, True), "rect": make(Implicit2D, False)}


class World:
    def __init__(self, case, ctx):
        from mmcore.geom import primitives as P
        from mmcore.geom.circle import Circle2D
        from mmcore.geom.implicit import implicit as M
        from mmcore.geom.implicit.tree import ImplicitTree2D, ImplicitTree3D

        self.ctx = ctx
        self.case = case
        self.n = 2 if case["plane"] else 3
        self.Tree = ImplicitTree2D if case["plane"] else ImplicitTree3D
        self.ref = Ref(case["shapes"])
        self.objs = []
        self.given = []  # the arrays handed in, by shape
        self.built = {}  # what each shape's tree was built from
        U = user_classes()
        for s in case["shapes"]:
            t = s["t"]
            given = {}
            if t in OPS:
                cls = getattr(M, {"union": "Union", "inter": "Intersection", "sub": "Sub"}[t] + f"{self.n}D")
                o = None
                a, b = self.objs[s["a"]], self.objs[s["b"]]
                if isinstance(a, (M.Implicit2D, M.Implicit3D)) and len(self.objs) % 2:  # by the operators
                    o = a | b if t == "union" else a & b if t == "inter" else a - b
                o = o if o is not None else cls(a, b)
            else:
                p = s["p"]
                given = {k: arr(p[k]) for k in POINT[t]}
                if t == "sphere":
                    o = P.Sphere(given["origin"], p["radius"])
                elif t == "icyl":
                    o = P.ImplicitCylinder(given["start"], given["end"], p["radius"])
                elif t == "cyl":
                    o = P.Cylinder(given["start"], given["end"], p["radius"])
                elif t == "tube":
                    o = P.Tube(given["start"], given["end"], p["radius"], p["thickness"])
                elif t == "circle":
                    o = Circle2D(arr(p["origin"]), p["r"])
                else:
                    o = U[t](copy.deepcopy(p))
            self.objs.append(o)
            self.given.append(given)

    # -- questions: ask() calls the library, judge() compares with the reference

    def ask(self, o):
        k, i = o[0], o[1]
        x = self.objs[i]
        t = self.case["shapes"][i]["t"]
        if k == "at":
            p = arr(o[2])
            v = float(x(p)) if t not in NATIVE + ("circle",) and len(self.objs) % 2 else float(x.implicit(p))
            return v, np.array_equal(p, arr(o[2]))
        if k == "grad":
            p = arr(o[2])
            return np.array(x.gradient(p), float), np.array_equal(p, arr(o[2]))
        if k == "many":
            p = arr(o[2])
            v = [float(y) for y in x(p)] if t not in NATIVE + ("circle",) else [float(x.implicit(q)) for q in p]
            return v, np.array_equal(p, arr(o[2]))
        if k == "bounds":
            if t == "circle":
                return None
            lo, hi = x.bounds()
            return np.array(lo, float), np.array(hi, float)
        if k == "inside":
            return x.point_inside(arr(o[2])) if hasattr(x, "point_inside") else None
        if k == "on":
            if t == "cyl":
                (u0, u1), (v0, v1) = x.interval()
                u, v = u0 + abs(o[2][0]) % 1 * (u1 - u0), v0 + abs(o[2][1]) % 1 * (v1 - v0)
                q = np.array(x.evaluate(arr([u, v])))
                return q, (u, v), (v0, v1), np.array(x.evaluate(arr([u + math.pi, v])))
            if t == "circle":
                return x.evaluate(o[2][0]), None, None, x.evaluate(o[2][0] + math.pi)
            return None
        if k == "read":
            got = {}
            if t in NATIVE or t == "circle":
                for f in POINT[t] + NUM[t]:
                    got[f] = np.array(getattr(x, f), float).tolist()
                if hasattr(x, "astuple"):
                    got["tuple"] = list(x.astuple())
            return got
        if k == "tree":
            if t in NATIVE or t == "circle":
                lo, hi = self.ref.bounds(i)
                T = self.Tree(x, o[2]) if t in NATIVE else self.Tree(x, o[2], bounds=(tuple(map(float, lo)), tuple(map(float, hi))))
                T.build()
            else:
                x.build_tree(o[2])
                T = x.tree
            return cells(T)
        raise AssertionError(k)

    def judge(self, o, got, refs, top=None):
        """refs: the states the answer may be for; top: the shape's place in them."""
        ctx = self.ctx
        k, i = o[0], o[1] if top is None else top
        name = self.case["shapes"][o[1]]["t"]

        def among(ok, exp, what):
            ctx.check(any(ok(e) for e in exp), f"{what}:{name}",
                      lambda: f"{o[:3]} answered {got}, expected {exp[0] if len(exp) == 1 else exp}")

        if k == "at":
            ctx.check(got[1], "implicit:argument", "the point differs after the call")
            among(lambda e: abs(got[0] - e) <= 1e-9 * (1 + abs(e)), [r.value(i, o[2]) for r in refs], "value")
        elif k == "many":
            ctx.check(got[1], "implicit:argument", "the points differ after the call")
            for j, q in enumerate(o[2]):
                among(lambda e: abs(got[0][j] - e) <= 1e-9 * (1 + abs(e)), [r.value(i, q) for r in refs], "values")
            ctx.check(len(got[0]) == len(o[2]), "values:count", lambda: f"{got}")
        elif k == "grad":
            ctx.check(got[1], "implicit:argument", "the point differs after the call")
            exp = [steep(r, i, o[2]) for r in refs]
            if len(exp) == 1 and exp[0] is not None:
                g = got[0] / np.linalg.norm(got[0])
                among(lambda e: np.max(np.abs(g - e)) < 2e-3, exp, "gradient")
        elif k == "bounds" and got is not None:
            among(lambda e: np.allclose(got[0], e[0], rtol=0, atol=1e-9) and np.allclose(got[1], e[1], rtol=0, atol=1e-9),
                  [r.bounds(i) for r in refs], "bounds")
        elif k == "inside" and got is not None:
            v = refs[0].value(i, o[2])
            if abs(v) > 1e-6:
                ctx.check(bool(got) == (v < 0), "inside:" + name, lambda: f"{o[2]}: {got}, distance {v}")
        elif k == "on" and got is not None:
            q, uv, vr, opp = got

            def fits(r):
                p = r.shapes[i]["p"]
                if abs(r.value(i, q)) > 1e-9 or abs(r.value(i, opp)) > 1e-9:
                    return False
                if uv is None:
                    return np.allclose((q + opp) / 2, p["origin"], atol=1e-9)
                d = np.subtract(p["end"], p["start"])
                h = float((q - p["start"]) @ d / np.linalg.norm(d))
                return (abs(h - uv[1]) < 1e-9 and abs(vr[1] - vr[0] - np.linalg.norm(d)) < 1e-9
                        and np.allclose((q + opp) / 2, p["start"] + uv[1] * d / np.linalg.norm(d), atol=1e-9))

            ctx.check(any(fits(r) for r in refs), "surface:" + name, lambda: f"{o}: {got} for {refs[0].shapes[i]}")
        elif k == "read":
            p = refs[0].shapes[i].get("p", {})
            for f, v in got.items():
                exp = p[f] if f != "tuple" else flat(p, name)
                ctx.check(np.allclose(v, exp, rtol=0, atol=0), f"read:{name}.{f}", lambda: f"{f} reads {v}, is {exp}")
        elif k == "tree":
            self.judge_tree(i, o[2], got, refs[0])

    def judge_tree(self, i, depth, got, ref):
        lo, hi = ref.bounds(i)
        if np.any(hi - lo < 1e-3):
            return
        ctx = self.ctx
        m = 2 ** depth
        step = (hi - lo) / m
        cls = {}
        for c in itertools.product(range(m), repeat=self.n):
            vals = [ref.value(i, lo + step * np.add(c, d)) for d in itertools.product((0, 1), repeat=self.n)]
            if min(abs(v) for v in vals) < 1e-7:
                cls[c] = None
            else:
                cls[c] = "full" if max(vals) < 0 else "empty" if min(vals) > 0 else "border"
        covered = {}
        for kind, boxes in got.items():
            for a, b in boxes:
                a, b = np.array(a, float), np.array(b, float)
                first = np.rint((a - lo) / step).astype(int)
                last = np.rint((b - lo) / step).astype(int)
                ctx.check(np.allclose(lo + first * step, a, atol=1e-7) and np.allclose(lo + last * step, b, atol=1e-7),
                          "tree:cell", lambda: f"{kind} cell {a}..{b} is off the grid of {lo}..{hi} at depth {depth}")
                for c in itertools.product(*[range(x, y) for x, y in zip(first, last)]):
                    covered.setdefault(c, []).append(kind)
        for c, want in cls.items():
            have = covered.get(c, [])
            ctx.check(len(have) == 1, "tree:cover", lambda: f"cell {c} of depth {depth} is listed {have}")
            ctx.check(want is None or have == [want], "tree:kind", lambda: f"cell {c} of depth {depth} is {want}, listed as {have}")
        ctx.check(set(covered) <= set(cls), "tree:outside", "cells outside the bounds")

    def edit(self, o):
        _, i, f, v = o[:4]
        x = self.objs[i]
        t = self.case["shapes"][i]["t"]
        if t in NATIVE:
            if isinstance(v, list):
                self.given[i][f] = arr(v)
                setattr(x, f, self.given[i][f])
            else:
                setattr(x, f, v)
        elif t == "circle":
            setattr(x, f, arr(v) if isinstance(v, list) else v)
        else:
            x.edit(f, v)

    def poke_in(self, i):
        if self.case["shapes"][i]["t"] in NATIVE:
            for a in self.given[i].values():
                a[:] = [77.0, -55.5, 1e6]

    def poke_out(self, i):
        x, t = self.objs[i], self.case["shapes"][i]["t"]
        outs = []
        if t in NATIVE:
            outs = [x.bounds()] + [getattr(x, f) for f in POINT[t]]
            if t == "cyl":
                outs.append(x.interval())
        elif t in OPS:
            outs = [x.bounds()]
            outs = [y for y in outs if not isinstance(y, tuple) or any(not isinstance(z, tuple) for z in y)]
        for y in outs:
            for z in (y if isinstance(y, tuple) else [y]):
                try:
                    np.asarray(z)[...] = 1234.5
                except (TypeError, ValueError):
                    pass  # read-only is fine


def flat(p, t):
    return sum([list(p[f]) for f in POINT[t]], []) + [p["radius"]] + ([p["thickness"]] if "thickness" in p else [])


def cells(T):
    return {k: [[list(map(float, a)), list(map(float, b))] for a, b in getattr(T, k)] for k in ("full", "empty", "border")}


def execute(case, ctx):
    setup()
    Tick.reset()
    w = World(case, ctx)
    if "tasks" in case:
        return together(case, ctx, w)
    for o in case["ops"]:
        k, i = o[0], o[1] % len(w.objs)
        o = [k, i] + o[2:]
        f = o[-1] if isinstance(o[-1], dict) else None
        if f:
            o = o[:-1]
        ctx.count("op." + k)
        if k == "edit":
            w.edit(o)
            w.ref.shapes[i]["p"][o[2]] = o[3]
            ctx.event("edit", i, o[2])
            continue
        if k == "poke_in":
            w.poke_in(i)
            continue
        if k == "poke_out":
            w.poke_out(i)
            continue
        if k == "tree":
            lo, hi = w.ref.bounds(i)
            if np.any(hi - lo < 1e-3):
                continue
        if f:
            failing(w, ctx, o, f)
        got = w.ask(o)
        w.judge(o, got, [w.ref])
        if k == "tree":
            w.built[i] = (o[2], Ref(w.ref.shapes))
        ctx.event(k, i, repr(got)[:300])
        ctx.state(case["shapes"][i]["t"], repr(w.ref.shapes[i]), k, repr(got)[:300])


def failing(w, ctx, o, f):
    """The question is interrupted once; what it leaves behind must not show."""
    Tick.reset()
    _, err, n, _ = sched.run_single(ctx, lambda: w.ask(o), limit=2_000_000)
    if err is not None:
        raise exception_violation(err)
    if o[0] == "tree":
        w.built[o[1]] = (o[2], Ref(w.ref.shapes))
    calls = Tick.calls
    faults = ()
    kind = f["kind"]
    if kind in ("raise", "nomem", "interrupt"):
        if not calls:
            return
        Tick.reset(1 + min(int(f["where"] * calls), calls - 1), kind)
    else:
        if not n:
            return
        faults = [{"task": 0, "at": 1 + min(int(f["where"] * n), n - 1), "kind": "interrupt" if kind == "line" else "nomem"}]
    box = []

    def body():
        try:
            box.append(("value", w.ask(o)))
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, sched.Aborted):
                raise
            box.append(("error", e))

    sched.run_single(ctx, body, faults=faults, limit=2_000_000)
    if kind in ("raise", "nomem", "interrupt"):
        ctx.fault("shape_" + kind)
        ctx.check(box and box[0][0] == "error" and box[0][1] is Tick.raised, "fault:swallowed",
                  lambda: f"{o}: the shape's {Tick.raised!r} came out as {box}")
    if box and box[0][0] == "error" and not isinstance(box[0][1], (sched.Injected, MemoryError, KeyboardInterrupt)):
        raise exception_violation(box[0][1])
    Tick.reset()
    i = o[1]
    if o[0] == "tree" and w.case["shapes"][i]["t"] not in NATIVE + ("circle",):
        depth, ref = w.built[i]
        w.judge_tree(i, depth, cells(w.objs[i].tree), ref)  # the tree from before, or the same one built anew


def together(case, ctx, w):
    clock = [0]
    versions = {i: [(0, None, copy.deepcopy(s))] for i, s in enumerate(case["shapes"]) if "p" in s}
    log = []

    def tick():
        clock[0] += 1
        return clock[0]

    def task(ops):
        def go():
            for o in ops:
                i = o[1] % len(w.objs)
                o = [o[0], i] + o[2:]
                a = tick()
                if o[0] == "edit":
                    v0 = versions[i][-1]
                    new = copy.deepcopy(v0[2])
                    new["p"][o[2]] = o[3]
                    entry = [a, None, new]
                    versions[i].append(entry)
                    w.edit(o)
                    versions[i][-2] = (v0[0], tick(), v0[2])
                else:
                    got = w.ask(o)
                    log.append((o, got, a, tick()))
        return go

    ts = run_tasks(case, ctx, [task(t) for t in case["tasks"]])
    for t in ts:
        if t.error is not None:
            raise exception_violation(t.error)
    for o, got, a, b in log:
        i = o[1]
        shapes, used = [], []

        def spread(j):
            """Every member read on its own: a shape that occurs twice may be seen in two states."""
            s = case["shapes"][j]
            if "p" in s:
                used.append((len(shapes), j))
                shapes.append(s)
            else:
                x, y = spread(s["a"]), spread(s["b"])
                shapes.append({"t": s["t"], "a": x, "b": y})
            return len(shapes) - 1

        top = spread(i)
        choices = [[v for v in versions[j] if v[0] <= b and (v[1] is None or v[1] >= a)] for _, j in used]
        refs = []
        for combo in itertools.islice(itertools.product(*choices), 400):
            r = Ref(shapes)
            r.top = top
            for (l, _), v in zip(used, combo):
                r.shapes[l] = v[2]
            refs.append(r)
        if len(refs) == 400:
            continue
        if o[0] == "tree":
            lo, hi = refs[0].bounds(top)
            if np.any(hi - lo < 1e-3):
                continue
        w.judge(o, got, refs, top)
        ctx.count("op." + o[0])
        ctx.event(o[0], i, repr(got)[:200])
        ctx.state(case["shapes"][i]["t"], o[0], repr(got)[:300])
