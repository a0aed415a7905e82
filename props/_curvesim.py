"""One simulated world for curves: a pool of curves, the arrays that went in and came out, and a history of operations with
failures in between. Which aspects a run judges is the property's choice; the rest is taken over from what the curve reports.

A slot keeps the state the curve must report (points with weights, knots, degree, period flag). After every operation every
curve of the pool is read back and compared, then evaluated at fixed places against the definition of a rational B-spline.
"""
import copy
import io
import contextlib
import pickle

import numpy as np

from props._nurbs import RefCurve, close, default_knots, random_knots, random_points
from sim.core import Violation

FRACS = [0.0, 0.13, 0.25, 0.375, 0.5, 0.75, 0.9, 1.0]
POOL = 5


# ---------------------------------------------------------------- allocation seam
class Alloc:
    """numpy's array makers as the library sees them; the nth call of an armed operation fails."""

    NAMES = ["empty", "zeros", "ones", "array", "concatenate", "zeros_like", "empty_like", "full", "arange", "asarray",
             "ascontiguousarray", "unique", "flip", "sort"]

    def __init__(self):
        self.real = {n: getattr(np, n) for n in self.NAMES}
        self.left = None
        self.fired = False
        self.seen = 0

    def install(self):
        for n in self.NAMES:
            setattr(np, n, self.wrap(self.real[n]))

    def remove(self):
        for n, f in self.real.items():
            setattr(np, n, f)

    def wrap(self, f):
        def call(*a, **k):
            if self.left is not None:
                self.seen += 1
                self.left -= 1
                if self.left <= 0:
                    self.left = None
                    self.fired = True
                    raise MemoryError("no memory (injected)")
            return f(*a, **k)

        return call

    @contextlib.contextmanager
    def fail_at(self, n):
        self.fired = False
        if not n:
            yield
            return
        self.left = n
        self.install()
        try:
            yield
        finally:
            self.left = None
            self.remove()


class Slot:
    def __init__(self, curve):
        self.curve = curve
        self.P = self.U = None
        self.p = 0
        self.periodic = False

    def adopt(self):
        c = self.curve
        self.P = np.array(c.control_pointsw, dtype=float)
        self.U = np.array(c.knots, dtype=float)
        self.p = int(c.degree)
        self.periodic = bool(c.periodic)
        return self

    def expect(self, P, U, p, periodic):
        self.P, self.U, self.p, self.periodic = np.array(P, dtype=float), np.array(U, dtype=float), int(p), bool(periodic)
        return self

    def ref(self):
        return RefCurve(self.P, self.p, self.U)

    def domain(self):
        return float(self.U[self.p]), float(self.U[len(self.P)])


def ref_point(ref, periodic, t):
    a, b = ref.domain()
    if periodic and not a <= t <= b:
        t = a + (t - a) % (b - a)
    return ref.point(t)


def four(P):
    P = np.asarray(P, dtype=float)
    if P.shape[1] == 3:
        P = np.column_stack([P, np.ones(len(P))])
    return P


def layout(a, how):
    """The same numbers in another memory layout."""
    a = np.array(a, dtype=float)
    if how == "f":
        return np.asfortranarray(a)
    if how == "slice":
        big = np.full(tuple(2 * n for n in a.shape), 777.0)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "rev":
        return np.array(a[::-1])[::-1]
    return a


# ---------------------------------------------------------------- generation
READS = ["evaluate", "multi", "points", "call", "start", "end", "e4", "d1", "d2", "ders", "bbox", "interval", "greville",
         "hash", "tuple", "getters", "normal"]


def gen_curve(rng, max_p=4):
    p = rng.weighted([(1, 2), (2, 4), (3, 6), (4, 2)]) if max_p >= 4 else rng.randrange(1, max_p + 1)
    n = p + 1 + rng.randrange(0, 6)
    k = random_knots(rng, n, p)
    return [random_points(rng, n, rng.chance(0.5)), p, k, rng.choice(["c", "c", "f", "slice", "rev"]),
            rng.chance(0.12) and k is None and n > p + 2]


def gen_snap(rng):
    """On a knot, anywhere, next to a knot (by that part of the domain), or off it by a rounding error."""
    return rng.weighted([(False, 10), (True, 5), (1e-3, 1), (-1e-3, 1), (1e-4, 1), (-1e-4, 1), (2e-5, 1), (5e-6, 2), ("above", 1), ("below", 1)])


def beside(x, side):
    """The number right above or below a knot: rounding on the way to it, as far as the library is concerned."""
    return float(np.nextafter(x, np.inf if side == "above" else -np.inf)) if abs(x) > 1e-6 else x


def near(U, t):
    """The knot t stands for, or t itself."""
    for x in U:
        if abs(x - t) <= 2.3e-16 * abs(x):
            return float(x)
    return t


def gen_op(rng, weights):
    name = rng.weighted(weights)
    i = rng.randrange(8)
    if name == "new":
        return ["new"] + gen_curve(rng)
    if name == "read":
        return ["read", i, rng.choice(READS), rng.choice([0.0, 1.0, 0.5, round(rng.random(), 4)])]
    if name == "points":
        return ["points", i, rng.randrange(1 << 30), rng.choice([3, 4, 4]), rng.choice(["c", "f", "slice"])]
    if name == "weights":
        return ["weights", i, rng.randrange(1 << 30)]
    if name == "nudge":
        return ["nudge", i, rng.choice(["points", "points", "weights", "knots", "one"]), rng.choice([1e-6, 3e-6, 1e-4, -2e-6])]
    if name == "knots":
        return ["knots", i, rng.choice(["scale", "random", "shift"]), rng.randrange(1 << 30)]
    if name == "set":
        return ["set", i] + gen_curve(rng)[:3]
    if name == "redegree":
        return ["redegree", i, rng.randrange(1, 5), rng.randrange(1 << 30)]
    if name == "insert":
        return ["insert", i, round(rng.uniform(0.02, 0.98), 4), rng.randrange(1, 4), gen_snap(rng)]
    if name in ("normalize", "periodic", "open", "copy", "deepcopy", "ccopy", "pickle", "serialize", "reverse", "flip",
                "decompose"):
        return [name, i]
    if name in ("split", "split2"):
        return [name, i, round(rng.uniform(0.02, 0.98), 4), gen_snap(rng)]
    if name == "trim":
        a, b = sorted([round(rng.uniform(0, 0.9), 4), round(rng.uniform(0.1, 1.0), 4)])
        if rng.chance(0.25):
            a = 0.0
        if rng.chance(0.25):
            b = 1.0
        return ["trim", i, a, b, gen_snap(rng), gen_snap(rng)]
    if name == "elevate":
        return ["elevate", i, rng.randrange(1, 3)]
    if name == "join":
        return ["join", i, rng.randrange(8), rng.weighted([(1, 4), (0, 1), (2, 1), (3, 1)])]
    if name == "scribble":
        return ["scribble", rng.randrange(64), rng.choice([0.0, 1.0, 13.5, -2.0])]
    if name == "bad":
        return ["bad", i, rng.choice(["rows", "columns", "weights", "trim", "split_edge", "insert_edge", "insert_many",
                                      "evaluate", "set_columns"]), round(rng.random(), 4)]
    raise AssertionError(name)


def gen_history(rng, weights, n, faults=0.0):
    ops = [["new"] + gen_curve(rng)]
    if rng.chance(0.5):
        ops.append(["new"] + gen_curve(rng))
    for _ in range(n):
        op = gen_op(rng, weights)
        if faults and rng.chance(faults):
            op.append({"alloc": rng.weighted([(1, 4), (2, 4), (3, 3), (4, 2), (6, 2), (9, 1)])})
        ops.append(op)
    return ops


# ---------------------------------------------------------------- execution
class World:
    def __init__(self, ctx, judge):
        """judge: the aspects that count: 'state' (reads agree with the reported state, setters do what they say, failed
        edits change nothing), 'isolation' (nothing changes but what was edited), 'shape' (reshaping keeps the points)."""
        self.ctx = ctx
        self.judge = judge
        self.pool = []
        self.given = []  # [array, snapshot, what] handed to the library
        self.got = []  # the same for arrays received from it
        self.alloc = Alloc()
        from mmcore.geom import nurbs
        from mmcore.geom.curves import knot

        self.nurbs, self.knot = nurbs, knot

    # -- bookkeeping
    def put(self, slot):
        if len(self.pool) < POOL:
            self.pool.append(slot)
        else:
            self.pool.pop(0)
            self.pool.append(slot)
        return slot

    def slot(self, i):
        return self.pool[i % len(self.pool)]

    def hand(self, a, what):
        self.given.append([a, np.array(a), what])
        return a

    def take(self, a, what):
        a = np.asarray(a)
        if a.ndim and a.size and a.flags.writeable:
            self.got.append([a, np.array(a), what])
            if len(self.got) > 40:
                self.got.pop(0)
        return a

    def param(self, s, frac, snap=False):
        a, b = s.domain()
        inner = [float(x) for x in s.U if a < x < b]
        if snap and inner:
            t = inner[int(frac * len(inner)) % len(inner)]
            if isinstance(snap, str):
                return beside(t, snap)
            if snap is not True:
                t = min(b, max(a, t + (b - a) * snap))
        else:
            t = a + (b - a) * frac
        for x in inner + [a, b]:
            if abs(x - t) <= 1e-6 * (b - a):
                return x
        return t

    def need(self, aspect, ok, sig, message=""):
        if aspect in self.judge:
            self.ctx.check(ok, sig, message)
            return True
        return bool(ok)

    # -- what every curve must look like
    def verify(self, skip=None, after="?"):
        for j, s in enumerate(self.pool):
            edited = s is skip
            aspect = "state" if edited else "isolation"
            c = s.curve
            P, U = np.asarray(c.control_pointsw), np.asarray(c.knots)
            same = (P.shape == s.P.shape and np.array_equal(P, s.P, equal_nan=True) and np.array_equal(U, s.U, equal_nan=True)
                    and int(c.degree) == s.p and bool(c.periodic) == s.periodic)
            if not same:
                self.need(aspect, False, f"curve:{'wrong-state' if edited else 'changed-by-others'}:{after}",
                          lambda: f"curve {j} after {after}: reports degree {c.degree} periodic {c.periodic} knots {U.tolist()} "
                                  f"points {P.tolist()}, expected degree {s.p} periodic {s.periodic} knots {s.U.tolist()} "
                                  f"points {s.P.tolist()}")
                s.adopt()
            if "state" in self.judge or ("isolation" in self.judge and not edited):
                self.agree(s, after, "state" if "state" in self.judge else "isolation")
        for book in (self.given, self.got):
            for e in book:
                if not np.array_equal(e[0], e[1], equal_nan=True):
                    now = e[0].tolist()
                    was, e[1] = e[1], np.array(e[0])
                    self.need("isolation", False, f"caller-array-changed:{e[2]}",
                              lambda: f"{e[2]} held by the caller changed during {after}: {was.tolist()} -> {now}")

    def agree(self, s, after, aspect, full=False):
        """The curve's answers are those of the state it reports."""
        c, ref, need = s.curve, s.ref(), self.need
        a, b = ref.domain()
        S = ref.scale()
        iv = tuple(float(x) for x in c.interval())
        need(aspect, abs(iv[0] - a) <= 1e-9 * (1 + abs(a)) and abs(iv[1] - b) <= 1e-9 * (1 + abs(b)), f"curve:interval:{after}",
             lambda: f"interval {iv}, knots say {(a, b)}")
        for f in FRACS:
            t = a + (b - a) * f
            got = c.evaluate(t)
            need(aspect, close(got, ref_point(ref, s.periodic, t), S, 1e-8), f"curve:evaluate:{after}",
                 lambda: f"at {t}: {got}, expected {ref_point(ref, s.periodic, t)} (degree {s.p}, knots {s.U.tolist()}, points {s.P.tolist()})")
        if s.periodic:
            for t in (a - 0.3 * (b - a), b + 0.4 * (b - a)):
                got = c.evaluate(t)
                need(aspect, close(got, ref_point(ref, True, t), S, 1e-8), f"curve:evaluate-wrapped:{after}",
                     lambda: f"at {t}: {got}, expected {ref_point(ref, True, t)}")

    def answer(self, s, kind, frac):
        """One read, compared with the definition."""
        c, ref, need = s.curve, s.ref(), self.need
        a, b = ref.domain()
        S = ref.scale()
        t = a + (b - a) * frac
        per = s.periodic
        sig = f"curve:read:{kind}"
        if kind == "evaluate":
            got = self.take(c.evaluate(t), "result of evaluate")
            need("state", close(got, ref_point(ref, per, t), S, 1e-8), sig, lambda: f"{t}: {got} vs {ref_point(ref, per, t)}")
        elif kind in ("multi", "call", "points"):
            ts = np.linspace(a, b, 7)
            if kind == "multi":
                self.hand(ts, "parameters given to evaluate_multi")
                got = c.evaluate_multi(ts)
            elif kind == "call":
                self.hand(ts, "parameters given to a call")
                got = c(ts)
            else:
                got = c.points(7)
            got = self.take(np.asarray(got), "result of " + kind)
            want = np.array([ref_point(ref, per, float(x)) for x in ts])
            if not per or kind != "points":
                need("state", close(got, want, S, 1e-8), sig, lambda: f"{np.asarray(got).tolist()} vs {want.tolist()}")
        elif kind in ("start", "end"):
            got = self.take(getattr(c, kind)(), "result of " + kind)
            need("state", close(got, ref_point(ref, per, a if kind == "start" else b), S, 1e-8), sig, lambda: f"{got}")
        elif kind == "e4":
            got = self.take(c.evaluate4d(t), "result of evaluate4d")
            need("state", close(np.asarray(got)[:3], ref_point(ref, per, t), S, 1e-8), sig, lambda: f"{got}")
        elif kind in ("d1", "d2", "ders", "normal"):
            if per:
                return
            d = ref.ders(t, 2)
            gap = float(min(np.diff(np.unique(s.U))))
            tol = (S * 1e-7) / min(1.0, gap) ** 2 * 10 * max(1.0, (s.P[:, 3].max() / s.P[:, 3].min()) ** 2)
            if kind == "d1":
                got = self.take(c.derivative(t), "result of derivative")
                need("state", close(got, d[1], tol, 1), sig, lambda: f"at {t}: {got} vs {d[1]}")
            elif kind == "d2":
                got = self.take(c.second_derivative(t), "result of second_derivative")
                need("state", close(got, d[2], tol, 1), sig, lambda: f"at {t}: {got} vs {d[2]}")
            elif kind == "ders":
                for fn in (c.derivatives1, c.derivatives2):
                    got = self.take(np.asarray(fn(t, 2)), "result of derivatives")
                    need("state", close(got, d[: len(got)], tol, 1), sig, lambda: f"at {t}: {got.tolist()} vs {d.tolist()}")
            else:
                c.tangent(t)
                c.normal(t)
        elif kind == "bbox":
            got = self.take(np.asarray(c.bbox()), "result of bbox")
            lo, hi = got[0], got[1]
            pts = np.array([ref.point(a + (b - a) * x / 16) for x in range(17)])
            need("state", bool(np.all(pts >= lo - 1e-7 * S) and np.all(pts <= hi + 1e-7 * S)), sig,
                 lambda: f"box {got.tolist()} does not hold {pts.tolist()}")
        elif kind == "interval":
            c.interval()
        elif kind == "greville":
            got = self.take(np.asarray(c.greville_abscissae), "greville abscissae")
            want = np.array([s.U[i + 1: i + 1 + s.p].mean() for i in range(len(s.P))])
            need("state", close(got, want, 1 + np.abs(want).max(), 1e-9), sig, lambda: f"{got.tolist()} vs {want.tolist()}")
        elif kind == "hash":
            twin = self.nurbs.NURBSCurve(np.array(s.P), s.p, np.array(s.U))
            if not per:
                need("state", c == twin and hash(c) == hash(twin), sig, "differs from a new curve with the same state")
            for o in self.pool:
                equal = o.p == s.p and o.P.shape == s.P.shape and np.array_equal(o.P, s.P) and np.array_equal(o.U, s.U)
                if not per and not o.periodic:
                    need("state", (o.curve == c) == equal, "curve:read:eq", f"compares {o.curve == c}, states equal: {equal}")
        elif kind == "tuple":
            pts, kn, deg, pr = c.astuple()
            need("state", np.array_equal(np.array(pts), s.P[:, :3]) and np.array_equal(np.array(kn), s.U) and deg == s.p
                 and bool(pr) == per, sig, lambda: f"{c.astuple()}")
        elif kind == "getters":
            need("state", np.array_equal(self.take(np.asarray(c.control_points), "control_points"), s.P[:, :3]), sig + ":points")
            need("state", np.array_equal(self.take(np.asarray(c.weights), "weights"), s.P[:, 3]), sig + ":weights")
            self.take(np.asarray(c.control_pointsw), "control_pointsw")
            self.take(np.asarray(c.knots), "knots")

    # -- operations; each returns the slot it edited (or None)
    def run(self, op):
        fault = op[-1] if isinstance(op[-1], dict) else None
        args = op[1:-1] if fault else op[1:]
        name = op[0]
        if name != "new" and not self.pool:
            return
        known = list(self.pool)
        before = {id(s): (s.P.copy(), s.U.copy(), s.p, s.periodic) for s in known}
        self.fail = self.alloc.fail_at(fault["alloc"] if fault else 0)
        edited = None
        outcome = "ok"
        try:
            edited = getattr(self, "op_" + name)(*args)
        except Violation:
            raise
        except MemoryError:
            if not (fault and self.alloc.fired):
                raise
            self.ctx.fault("allocation_fails")
            outcome = "no-memory"
            # nothing may have changed: neither the curve that was being edited nor any other
            for s in known:
                s.P, s.U, s.p, s.periodic = before[id(s)]
            edited = self.target
        if edited is not None or name in ("read", "scribble"):
            self.ctx.count("op." + name)
        after = name if outcome != "no-memory" else name + ":failed"
        self.verify(edited, after)
        self.ctx.event(name, outcome, len(self.pool), *[len(s.P) for s in self.pool])
        self.ctx.state(name, outcome, *(sorted((s.p, len(s.P), s.periodic) for s in self.pool[-2:])))

    target = None

    def build(self, pts, p, knots, how, periodic):
        NC = self.nurbs.NURBSCurve
        P = self.hand(layout(pts, how), "control points given to the constructor")
        U = None if knots is None else self.hand(layout(knots, "slice" if how == "slice" else "c"), "knots given to the constructor")
        return P, U, NC

    def op_new(self, pts, p, knots, how, periodic):
        P, U, NC = self.build(pts, p, knots, how, periodic)
        self.target = None
        with self.fail:
            c = NC(P, p) if U is None and not periodic else NC(P, p, U, periodic) if periodic else NC(P, p, U)
        s = Slot(c)
        Pw, Uw = four(pts), np.array(knots, dtype=float) if knots is not None else default_knots(len(pts), p)
        if periodic:
            s.adopt()
            wrapped = np.array_equal(Pw[:p], Pw[-p:])
            self.need("state", s.periodic == (not wrapped) or s.periodic, "curve:periodic-flag", "a periodic curve says it is not")
        else:
            s.expect(Pw, Uw, p, False)
        self.put(s)
        return s

    def op_read(self, i, kind, frac):
        s = self.slot(i)
        self.target = None
        with self.fail:
            self.answer(s, kind, frac)
        return None

    def rows(self, seed, n, cols):
        from sim.rng import Stream

        return np.array(random_points(Stream("rows", seed), n, cols == 4), dtype=float)

    def op_points(self, i, seed, cols, how):
        s = self.target = self.slot(i)
        P = self.hand(layout(self.rows(seed, len(s.P), cols), how), "control points given to the setter")
        with self.fail:
            s.curve.control_points = P
        got = np.asarray(s.curve.weights)
        if cols == 4:
            s.P = np.array(P)
        else:
            self.need("state", got.shape == (len(s.P),) and (np.array_equal(got, np.ones(len(s.P))) or np.array_equal(got, s.P[:, 3])),
                      "curve:points-weights", f"weights {got}")
            s.P = np.column_stack([P, got])
        return s

    def op_weights(self, i, seed):
        from sim.rng import Stream

        s = self.target = self.slot(i)
        r = Stream("weights", seed)
        w = self.hand(np.array([r.choice([1.0, 0.5, 2.0, round(r.uniform(0.2, 5), 3)]) for _ in s.P]), "weights given to the setter")
        with self.fail:
            s.curve.weights = w
        s.P[:, 3] = w
        return s

    def op_nudge(self, i, what, by):
        """An edit that hardly changes anything is an edit."""
        s = self.target = self.slot(i)
        if what == "knots":
            U = self.hand(s.U * (1 + by), "knots given to the setter")
            with self.fail:
                s.curve.knots = U
            s.U = np.array(U)
        elif what == "weights":
            w = self.hand(s.P[:, 3] * np.where(np.arange(len(s.P)) % 2, 1 + by, 1.0), "weights given to the setter")
            with self.fail:
                s.curve.weights = w
            s.P[:, 3] = w
        else:
            P = np.array(s.P)
            rows = slice(None) if what == "points" else slice(len(P) // 2, len(P) // 2 + 1)
            P[rows, :3] *= 1 + by
            P = self.hand(P, "control points given to the setter")
            with self.fail:
                s.curve.control_points = P
            s.P = np.array(P)
        return s

    def op_knots(self, i, how, seed):
        from sim.rng import Stream

        s = self.slot(i)
        self.target = s
        r = Stream("knots", seed)
        U = None
        if how == "random" and not s.periodic:
            U = random_knots(r, len(s.P), s.p, r.choice(["uniform", "random", "shifted"]))
        if U is None:
            U = s.U * 2.0 if how == "scale" else s.U + 3.0
        U = self.hand(np.array(U, dtype=float), "knots given to the setter")
        with self.fail:
            s.curve.knots = U
        s.U = np.array(U)
        return s

    def op_set(self, i, pts, p, knots):
        s = self.slot(i)
        if s.periodic:
            return None
        n = len(pts)
        if n <= s.p:
            return None
        P = self.hand(np.array(pts, dtype=float), "control points given to set")
        U = knots if knots is not None and p == s.p else default_knots(n, s.p)
        U = self.hand(np.array(U, dtype=float), "knots given to set")
        self.target = s
        with self.fail:
            s.curve.set(P, U)
        s.expect(four(P), U, s.p, False)
        return s

    def op_redegree(self, i, p, seed):
        from sim.rng import Stream

        s = self.slot(i)
        if s.periodic or len(s.P) <= p:
            return None
        U = random_knots(Stream("redegree", seed), len(s.P), p, "random")
        s.curve.degree = p
        s.curve.knots = np.array(U)
        s.expect(s.P, U, p, False)
        return s

    def op_normalize(self, i):
        s = self.target = self.slot(i)
        old = Slot(s.curve).expect(s.P, s.U, s.p, s.periodic)
        with self.fail:
            s.curve.normalize_knots()
        U = np.asarray(s.curve.knots)
        want = (old.U - old.U[0]) / (old.U[-1] - old.U[0])
        self.need("state", close(U, want, 1, 1e-12), "curve:normalize", lambda: f"{U.tolist()} vs {want.tolist()}")
        s.U = np.array(U)
        self.same_shape(old, s, "normalize", lambda f: f)
        return s

    def op_periodic(self, i):
        s = self.slot(i)
        if s.periodic or len(s.P) < s.p + 1 or len(s.P) > 30:
            return None
        self.target = s
        P, p = s.P.copy(), s.p
        with self.fail:
            s.curve.make_periodic()
        s.adopt()
        if not np.array_equal(P[:p], P[-p:]):
            self.need("state", s.periodic and np.array_equal(s.P, np.concatenate([P, P[:p]])), "curve:make-periodic", lambda: f"{s.P.tolist()}")
        return s

    def op_open(self, i):
        s = self.slot(i)
        self.target = s
        was = (s.P.copy(), s.U.copy(), s.p, s.periodic)
        with self.fail:
            s.curve.make_open()
        if not was[3]:
            return s
        s.adopt()
        n = len(was[0]) - was[2]
        self.need("state", not s.periodic and np.array_equal(s.P, was[0][:n]), "curve:make-open", lambda: f"{s.P.tolist()}")
        return s

    # -- reshaping
    def same_shape(self, old, new, what, to_new, fracs=FRACS, rel=1e-7):
        """old at fraction f of its domain is new at to_new(f) of its own domain."""
        if "shape" not in self.judge:
            return
        r, q = old.ref(), None
        a, b = old.domain()
        S = r.scale()
        c, d = new.domain()
        q = new.ref()
        for f in fracs:
            g = to_new(f)
            if g is None or not -1e-12 <= g <= 1 + 1e-12:
                continue
            g = min(1.0, max(0.0, g))
            want = r.point(a + (b - a) * f)
            t = c + (d - c) * g
            got = new.curve.evaluate(t)
            self.need("shape", close(got, want, S, rel), f"shape:{what}",
                      lambda: f"at fraction {f}: {got}, was {want}; degree {old.p}, knots {old.U.tolist()}, points {old.P.tolist()}")

    def op_insert(self, i, frac, count, snap):
        s = self.slot(i)
        t = self.param(s, frac, snap)
        a, b = s.domain()
        mult = int(np.sum(np.abs(s.U - t) <= 1e-9 * (b - a)))
        count = min(count, s.p - mult)
        if count < 1 or not a < t < b or len(s.P) > 30:
            return None
        self.target = s
        old = Slot(s.curve).expect(s.P, s.U, s.p, s.periodic)
        with self.fail:
            s.curve.insert_knot(t, count)
        s.adopt()
        want = np.sort(np.concatenate([old.U, [near(old.U, t)] * count]))
        self.need("shape", np.array_equal(s.U, want), "shape:insert-knots", lambda: f"{s.U.tolist()} vs {want.tolist()}")
        self.same_shape(old, s, "insert", lambda f: f)
        return s

    def derive(self, i, what, call):
        """Runs call(curve) and returns (source slot, result); the source must not change."""
        s = self.slot(i)
        self.target = None
        with self.fail:
            out = call(s.curve)
        return s, out

    def copied(self, i, what, call):
        s, out = self.derive(i, what, call)
        new = Slot(out).expect(s.P, s.U, s.p, s.periodic)
        self.put(new)
        return new

    def op_copy(self, i):
        return self.copied(i, "copy", lambda c: c.copy())

    def op_deepcopy(self, i):
        return self.copied(i, "deepcopy", copy.deepcopy)

    def op_ccopy(self, i):
        return self.copied(i, "copy.copy", copy.copy)

    def op_pickle(self, i):
        return self.copied(i, "pickle", lambda c: pickle.loads(pickle.dumps(c)))

    def op_serialize(self, i):
        return self.copied(i, "serialize", lambda c: self.nurbs.NURBSCurve.deserialize(c.serialize()))

    def pieces(self, s, parts, bounds, what):
        """parts[k] must be the source between bounds[k] and bounds[k+1], over that same domain."""
        old = s.ref()
        S = old.scale()
        self.need("shape", len(parts) == len(bounds) - 1, f"shape:{what}-count", lambda: f"{len(parts)} pieces for {bounds}")
        for k, c in enumerate(parts):
            lo, hi = bounds[k], bounds[k + 1]
            iv = c.interval()
            self.need("shape", abs(iv[0] - lo) <= 1e-9 * (1 + abs(lo)) and abs(iv[1] - hi) <= 1e-9 * (1 + abs(hi)),
                      f"shape:{what}-domain", lambda: f"piece {k} spans {tuple(iv)}, not {(lo, hi)}")
            if "shape" in self.judge:
                for f in FRACS:
                    t = lo + (hi - lo) * f
                    got = c.evaluate(t)
                    self.need("shape", close(got, old.point(t), S, 1e-7), f"shape:{what}",
                              lambda: f"piece {k} at {t}: {got}, source {old.point(t)}; degree {s.p} knots {s.U.tolist()} points {s.P.tolist()}")

    def splittable(self, s, t):
        a, b = s.domain()
        return (not s.periodic and a + 1e-4 * (b - a) < t < b - 1e-4 * (b - a) and int(np.sum(s.U == near(s.U, t))) <= s.p
                and all(near(s.U, t) == x or abs(x - t) > 1e-6 * (b - a) for x in s.U))

    def cut(self, name, fn, i, frac, snap):
        s = self.slot(i)
        t = self.param(s, frac, snap)
        if not self.splittable(s, t):
            return None
        s, out = self.derive(i, name, lambda c: fn(c, t))
        self.pieces(s, list(out), [s.domain()[0], t, s.domain()[1]], name)
        new = None
        for c in out:
            new = self.put(Slot(c).adopt())
        return new

    def op_split(self, i, frac, snap):
        return self.cut("split", self.nurbs.split_curve, i, frac, snap)

    def op_split2(self, i, frac, snap):
        return self.cut("split2", lambda c, t: self.nurbs.split_curve2(c, t), i, frac, snap)

    def op_decompose(self, i):
        s = self.slot(i)
        a, b = s.domain()
        inner = sorted({float(x) for x in s.U if a < x < b})
        if s.periodic or any(np.sum(s.U == x) > s.p for x in inner) or any(y - x < 1e-4 * (b - a) for x, y in zip([a] + inner, inner + [b])):
            return None
        s, out = self.derive(i, "decompose", self.nurbs.decompose_curve)
        self.pieces(s, list(out), [a] + inner + [b], "decompose")
        return self.put(Slot(out[len(out) // 2]).adopt())

    def op_trim(self, i, f, g, snapf, snapg):
        s = self.slot(i)
        a, b = s.domain()
        t1, t2 = self.param(s, f, snapf and f > 0), self.param(s, g, snapg and g < 1)
        if t2 < t1:
            t1, t2 = t2, t1
        if t2 - t1 < 1e-3 * (b - a) or not all(t in (a, b) or self.splittable(s, t) for t in (t1, t2)) or s.periodic:
            return None
        s, c = self.derive(i, "trim", lambda c: c.trim(t1, t2))
        iv = c.interval()
        self.need("shape", abs(iv[1] - iv[0] - (t2 - t1)) <= 1e-9 * (1 + abs(t2 - t1)), "shape:trim-domain", f"{tuple(iv)} for {(t1, t2)}")
        if "shape" in self.judge:
            ref = s.ref()
            for fr in FRACS:
                got = c.evaluate(iv[0] + (iv[1] - iv[0]) * fr)
                want = ref.point(t1 + (t2 - t1) * fr)
                self.need("shape", close(got, want, ref.scale(), 1e-7), "shape:trim", lambda: f"fraction {fr} of {(t1, t2)}: {got} vs {want}")
        return self.put(Slot(c).adopt())

    def op_reverse(self, i):
        s = self.slot(i)
        if s.periodic:
            return None
        s, c = self.derive(i, "reverse", self.nurbs.reverse_curve)
        new = self.put(Slot(c).adopt())
        self.same_shape(s, new, "reverse", lambda f: 1 - f)
        return new

    def op_flip(self, i):
        s = self.slot(i)
        if s.periodic:
            return None
        s, c = self.derive(i, "flip", lambda c: c.flip())
        new = self.put(Slot(c).adopt())
        self.same_shape(s, new, "flip", lambda f: 1 - f)
        return new

    def op_elevate(self, i, by):
        s = self.slot(i)
        a, b = s.domain()
        gaps = np.diff(np.unique(s.U))
        if s.periodic or s.p + by > 6 or len(s.P) > 12 or gaps.min() < 1e-3 * (b - a):
            return None
        inner = [float(x) for x in s.U if a < x < b]
        if any(inner.count(x) > s.p for x in inner):
            return None
        with contextlib.redirect_stdout(io.StringIO()):
            s, c = self.derive(i, "elevate", lambda c: self.knot.degree_elevate_curve(c, by))
        new = self.put(Slot(c).adopt())
        self.need("shape", new.p == s.p + by, "shape:elevate-degree", f"{new.p}")
        self.same_shape(s, new, "elevate", lambda f: f)
        return new

    def op_join(self, i, j, ends):
        s, o = self.slot(i), self.slot(j)
        if s.periodic or o.periodic or s.p > 4 or o.p > 4 or max(len(s.P), len(o.P)) > 10:
            return None
        # the second curve is moved so that one of its ends meets one of the ends of the first
        P = o.P.copy()
        P[:, :3] += s.P[-1 if ends & 1 else 0, :3] - P[-1 if ends & 2 else 0, :3]
        q = [s.P[0, :3], s.P[-1, :3], P[0, :3], P[-1, :3]]
        if sum(np.linalg.norm(x - y) < 1e-3 for x in q[:2] for y in q[2:]) != 1:
            return None
        if any(g < 1e-3 for k in (s, o) for g in np.diff(np.unique(k.U)) / (k.domain()[1] - k.domain()[0])):
            return None
        for k in (s, o):
            a, b = k.domain()
            inner = [float(x) for x in k.U if a < x < b]
            if any(inner.count(x) > k.p for x in inner):
                return None
        other = self.nurbs.NURBSCurve(P, o.p, np.array(o.U))
        b = Slot(other).expect(P, o.U, o.p, False)
        with contextlib.redirect_stdout(io.StringIO()):
            s, c = self.derive(i, "join", lambda c: self.knot.join_two_curves(c, other))
        new = self.put(Slot(c).adopt())
        if "shape" in self.judge:
            (a1, b1), (a2, b2) = s.domain(), b.domain()
            lo, hi = new.domain()
            # the joint lies where the first curve ends, the rest follows
            S = max(s.ref().scale(), b.ref().scale())
            one = [s.ref().point(a1 + (b1 - a1) * (f if ends & 1 else 1 - f)) for f in FRACS]
            two = [b.ref().point(a2 + (b2 - a2) * (1 - f if ends & 2 else f)) for f in FRACS]
            pts = one + two
            self.need("shape", close(c.evaluate(lo), pts[0], S, 1e-7), "shape:join-start", lambda: f"{c.evaluate(lo)} vs {pts[0]}")
            self.need("shape", close(c.evaluate(hi), pts[-1], S, 1e-7), "shape:join-end", lambda: f"{c.evaluate(hi)} vs {pts[-1]}")
            L1, L2 = b1 - a1, b2 - a2
            for t, want in [(lo + L1 * f, one[k]) for k, f in enumerate(FRACS)] + [(lo + L1 + L2 * f, two[k]) for k, f in enumerate(FRACS)]:
                if abs((hi - lo) - (L1 + L2)) > 1e-9 * (hi - lo):
                    break
                got = c.evaluate(t)
                self.need("shape", close(got, want, S, 1e-7), "shape:join", lambda: f"at {t}: {got} vs {want}")
        return new

    # -- the caller writes into what it holds
    def op_scribble(self, k, value):
        book = self.given + self.got
        if not book:
            return None
        e = book[k % len(book)]
        if not e[0].flags.writeable:
            return None
        e[0][...] = value
        for x in book:
            if x is e or np.shares_memory(x[0], e[0]):
                if x is not e and x[2] != e[2] and "getters" not in x[2]:
                    pass
                if x is e:
                    x[1] = np.array(x[0])
        self.ctx.fault("caller_overwrites_its_array")
        return None

    # -- edits that must be refused, or at least leave a consistent curve
    def op_bad(self, i, kind, frac):
        s = self.slot(i)
        c = s.curve
        n = len(s.P)
        a, b = s.domain()
        self.target = s
        raised = True
        must = False
        try:
            if kind == "rows":
                must = True
                c.control_points = np.zeros((n + 1, 4))
            elif kind == "columns":
                c.control_points = np.zeros((n, 5))
            elif kind == "weights":
                c.weights = np.full(n + 2, 3.0)
            elif kind == "set_columns":
                c.set(np.zeros((n, 7)), np.array(s.U))
            elif kind == "trim":
                must = True
                t = a + (b - a) * 0.4
                c.trim(t, t)
            elif kind == "split_edge":
                must = True
                self.nurbs.split_curve2(c, a if frac < 0.5 else b)
            elif kind == "insert_edge":
                c.insert_knot(b + (b - a) * (0.1 + frac), 1)
            elif kind == "insert_many":
                c.insert_knot(a + (b - a) * 0.37, s.p + 2)
            else:
                c.evaluate("nowhere")
            raised = False
        except Exception as e:  # noqa: BLE001
            self.ctx.fault("refused_edit")
            if isinstance(e, Violation):
                raise
        if not raised:
            self.need("state", not must, f"curve:accepted:{kind}", "an impossible edit was accepted")
            s.adopt()
        return s


def run_history(case, ctx, judge):
    w = World(ctx, judge)
    for op in case["ops"]:
        w.run(op)
        ctx.steps += 1
    ctx.count("curves", len(w.pool))
    return w
