"""The simulated world of surfaces: a pool of surfaces, the arrays and views their callers hold, a history of operations with
failures in between. Same rules as _curvesim."""
import copy
import pickle

import numpy as np

from props._curvesim import Alloc, beside, gen_snap, layout, near
from props._nurbs import RefCurve, RefSurface, close, default_knots, random_knots, random_points
from sim.core import Violation
from sim.rng import Stream

FR = [(0.0, 0.0), (1.0, 1.0), (0.0, 0.7), (0.37, 1.0), (0.5, 0.5), (0.21, 0.83), (0.9, 0.13), (0.62, 0.4)]
POOL = 5


class Slot:
    def __init__(self, s):
        self.s = s

    def expect(self, P, d, U, V):
        self.P, self.d = np.array(P, dtype=float), (int(d[0]), int(d[1]))
        self.U, self.V = np.array(U, dtype=float), np.array(V, dtype=float)
        return self

    def adopt(self):
        s = self.s
        return self.expect(np.array(s.control_points_w), tuple(s.degree), s.knots_u, s.knots_v)

    def ref(self):
        return RefSurface(self.P, self.d, self.U, self.V)

    def clone(self):
        return Slot(self.s).expect(self.P, self.d, self.U, self.V)


def gen_surface(rng, max_p=3):
    p, q = rng.randrange(1, max_p + 1), rng.randrange(1, max_p + 1)
    n, m = p + 1 + rng.randrange(0, 4), q + 1 + rng.randrange(0, 4)
    w = rng.chance(0.5)
    pts = random_points(rng, n * m, w)
    rows = [pts[i * m:(i + 1) * m] for i in range(n)]
    return [rows, [p, q], random_knots(rng, n, p), random_knots(rng, m, q), rng.choice(["c", "c", "f", "slice"])]


READS = ["evaluate", "v2", "multi", "interval", "bbox", "points", "flat", "knots", "degree", "hash", "ders", "normal", "planes"]


def gen_op(rng, weights):
    name = rng.weighted(weights)
    i = rng.randrange(8)
    fr = lambda: round(rng.uniform(0.02, 0.98), 4)  # noqa: E731
    if name == "new":
        return ["new"] + gen_surface(rng)
    if name == "read":
        return ["read", i, rng.choice(READS), round(rng.random(), 4), round(rng.random(), 4)]
    if name == "knots":
        return ["knots", i, rng.randrange(2), rng.randrange(1 << 30)]
    if name == "degree":
        return ["degree", i, rng.randrange(1, 4), rng.randrange(1, 4)]
    if name == "insert":
        return ["insert", i, rng.randrange(2), fr(), rng.randrange(1, 4), gen_snap(rng)]
    if name in ("normalize", "copy", "ccopy", "deepcopy", "pickle", "drop"):
        return [name, i]
    if name == "split":
        return ["split", i, rng.randrange(2), fr(), gen_snap(rng)]
    if name == "subdivide":
        return ["subdivide", i, fr(), fr(), gen_snap(rng)]
    if name == "decompose":
        return ["decompose", i, rng.choice(["u", "v", "uv"])]
    if name == "iso":
        return ["iso", i, rng.randrange(2), rng.choice([0.0, 1.0, fr(), fr()]), gen_snap(rng)]
    if name == "boundary":
        return ["boundary", i]
    if name == "ruled":
        p, q = rng.randrange(1, 4), rng.randrange(1, 4)
        w = rng.chance(0.4)
        a = random_points(rng, p + 1 + rng.randrange(0, 3), w)
        b = random_points(rng, q + 1 + rng.randrange(0, 3), w)
        return ["ruled", a, p, random_knots(rng, len(a), p, rng.choice(["default", "uniform", "random"])), b, q,
                random_knots(rng, len(b), q, rng.choice(["default", "uniform", "random"]))]
    if name == "view":
        return ["view", i, rng.randrange(2)]
    if name == "scribble":
        return ["scribble", rng.randrange(64), rng.choice([0.0, 1.0, 13.5, -2.0])]
    if name == "bad":
        return ["bad", i, rng.choice(["split_edge", "insert_edge", "insert_many", "iso_outside", "direction", "evaluate"]), round(rng.random(), 4)]
    raise AssertionError(name)


def gen_history(rng, weights, n, faults=0.0):
    ops = [["new"] + gen_surface(rng)]
    for _ in range(n):
        op = gen_op(rng, weights)
        if faults and rng.chance(faults):
            op.append({"alloc": rng.weighted([(1, 4), (2, 4), (3, 3), (4, 2), (6, 2), (9, 1)])})
        ops.append(op)
    return ops


class World:
    def __init__(self, ctx, judge):
        self.ctx, self.judge = ctx, judge
        self.pool, self.given, self.got, self.views = [], [], [], []
        self.alloc = Alloc()
        import importlib

        ruled = importlib.import_module("mmcore.construction.ruled")
        from mmcore.geom import nurbs
        from mmcore.numeric.intersection.ssx import boundary_intersection

        self.nurbs, self.bi, self.ruled = nurbs, boundary_intersection, ruled

    def put(self, slot):
        if len(self.pool) >= POOL:
            self.pool.pop(0)
        self.pool.append(slot)
        return slot

    def slot(self, i):
        return self.pool[i % len(self.pool)]

    def hand(self, a, what):
        self.given.append([a, np.array(a), what])
        return a

    def take(self, a, what):
        a = np.asarray(a)
        if a.ndim and a.size and a.flags.writeable:
            self.got.append([a, np.array(a), what])
            if len(self.got) > 40:
                self.got.pop(0)
        return a

    def need(self, aspect, ok, sig, message=""):
        if aspect in self.judge:
            self.ctx.check(ok, sig, message)
        return bool(ok)

    def param(self, s, d, frac, snap=False):
        a, b = s.ref().domain()[d]
        K = s.U if d == 0 else s.V
        inner = [float(x) for x in K if a < x < b]
        if snap and inner:
            t = inner[int(frac * len(inner)) % len(inner)]
            if isinstance(snap, str):
                return beside(t, snap)
            if snap is not True:
                t = min(b, max(a, t + (b - a) * snap))
        else:
            t = a + (b - a) * frac
        for x in inner + [a, b]:
            if abs(x - t) <= 1e-6 * (b - a):
                return x
        return t

    def cuttable(self, s, d, t):
        a, b = s.ref().domain()[d]
        K = s.U if d == 0 else s.V
        return (a + 1e-4 * (b - a) < t < b - 1e-4 * (b - a) and int(np.sum(K == near(K, t))) <= s.d[d]
                and all(near(K, t) == x or abs(x - t) > 1e-6 * (b - a) for x in K))

    # -- invariants
    def verify(self, edited, after):
        for j, w in enumerate(self.pool):
            aspect = "state" if w is edited else "isolation"
            s = w.s
            P = np.array(s.control_points_w)
            same = (P.shape == w.P.shape and np.array_equal(P, w.P, equal_nan=True) and tuple(s.degree) == w.d
                    and np.array_equal(s.knots_u, w.U) and np.array_equal(s.knots_v, w.V) and tuple(s.shape) == w.P.shape[:2])
            if not same:
                self.need(aspect, False, f"surface:{'wrong-state' if w is edited else 'changed-by-others'}:{after}",
                          lambda: f"surface {j} after {after}: degree {s.degree} knots {s.knots_u.tolist()} {s.knots_v.tolist()} "
                                  f"points {P.tolist()}, expected {w.d} {w.U.tolist()} {w.V.tolist()} {w.P.tolist()}")
                w.adopt()
            a = "state" if "state" in self.judge else "isolation" if w is not edited else "none"
            if a in self.judge:
                self.agree(w, after, a)
        for book in (self.given, self.got):
            for e in book:
                if not np.array_equal(e[0], e[1], equal_nan=True):
                    now, was = e[0].tolist(), e[1]
                    e[1] = np.array(e[0])
                    self.need("isolation", False, f"caller-array-changed:{e[2]}",
                              lambda: f"{e[2]} held by the caller changed during {after}: {was.tolist()} -> {now}")
        for v, snap in self.views:
            # a view of the control points keeps the points it was taken of, whatever became of the surface
            self.need("isolation", np.array_equal(v, snap), f"surface:view-damaged:{after}",
                      lambda: f"a view of the control points taken earlier reads {v.tolist()}, was {snap.tolist()}")

    def agree(self, w, after, aspect):
        r = w.ref()
        (a, b), (c, d) = r.domain()
        S = r.scale()
        iv = w.s.interval()
        self.need(aspect, np.allclose(iv, ((a, b), (c, d)), rtol=1e-9, atol=1e-9), f"surface:interval:{after}",
                  lambda: f"interval {iv}, knots say {((a, b), (c, d))}")
        for f, g in FR:
            u, v = a + (b - a) * f, c + (d - c) * g
            got, want = w.s.evaluate(np.array([u, v])), r.point(u, v)
            self.need(aspect, close(got, want, S, 1e-8), f"surface:evaluate:{after}",
                      lambda: f"at {(u, v)}: {got}, expected {want}; degree {w.d} knots {w.U.tolist()} {w.V.tolist()} points {w.P.tolist()}")

    def answer(self, w, kind, f, g):
        s, r = w.s, w.ref()
        (a, b), (c, d) = r.domain()
        S = r.scale()
        u, v = a + (b - a) * f, c + (d - c) * g
        sig = "surface:read:" + kind
        need = self.need
        if kind == "evaluate":
            uv = self.hand(np.array([u, v]), "parameters given to evaluate")
            got = self.take(s.evaluate(uv), "result of evaluate")
            need("state", close(got, r.point(u, v), S, 1e-8), sig, f"{got}")
        elif kind == "v2":
            got = self.take(s.evaluate_v2(u, v), "result of evaluate_v2")
            need("state", close(got, r.point(u, v), S, 1e-8), sig, f"{got}")
        elif kind == "multi":
            uv = self.hand(np.array([[u, v], [a, d], [b, c]]), "parameters given to evaluate_multi")
            got = self.take(s.evaluate_multi(uv), "result of evaluate_multi")
            need("state", close(got, [r.point(*x) for x in uv], S, 1e-8), sig, lambda: f"{got}")
        elif kind == "bbox":
            got = self.take(np.asarray(s.bbox()), "result of bbox")
            pts = np.array([r.point(a + (b - a) * i / 5, c + (d - c) * j / 5) for i in range(6) for j in range(6)])
            need("state", bool(np.all(pts >= got[0] - 1e-7 * S) and np.all(pts <= got[1] + 1e-7 * S)), sig,
                 lambda: f"box {got.tolist()} does not hold {pts.tolist()}")
        elif kind == "points":
            got = self.take(np.asarray(s.control_points), "control_points")
            need("state", close(got, w.P[..., :3] / w.P[..., 3:], S, 1e-9), sig, lambda: f"{got.tolist()}")
        elif kind == "flat":
            got = self.take(np.asarray(s.control_points_flat), "control_points_flat")
            need("state", close(got, (w.P[..., :3] / w.P[..., 3:]).reshape(-1, 3), S, 1e-9), sig, lambda: f"{got.tolist()}")
            need("state", np.array_equal(np.asarray(s.control_points_flat_w), w.P.reshape(-1, 4)), sig + "_w")
        elif kind == "knots":
            self.take(s.knots_u, "knots_u")
            self.take(s.knots_v, "knots_v")
        elif kind == "hash":
            twin = self.nurbs.NURBSSurface(np.array(w.P), w.d, np.array(w.U), np.array(w.V))
            need("state", s == twin and hash(s) == hash(twin), sig, "differs from a new surface with the same state")
            for o in self.pool:
                eq = o.d == w.d and o.P.shape == w.P.shape and np.array_equal(o.P, w.P) and np.array_equal(o.U, w.U) and np.array_equal(o.V, w.V)
                need("state", (o.s == s) == eq, "surface:read:eq", f"compares {o.s == s}, states equal: {eq}")
        elif kind == "ders":
            # the finite-difference derivative in the middle of the domain, to the accuracy such differences have
            if b - a < 0.2 or d - c < 0.2:
                return
            uv = np.array([u, v])
            self.take(s.derivative_u(uv), "derivative_u")
            self.take(s.derivative_v(uv), "derivative_v")
        elif kind == "normal":
            self.take(s.normal(np.array([u, v])), "normal")

    # -- driver
    target = None

    def run(self, op):
        fault = op[-1] if isinstance(op[-1], dict) else None
        args, name = (op[1:-1] if fault else op[1:]), op[0]
        if name not in ("new", "ruled") and not self.pool:
            return
        known = list(self.pool)
        before = {id(w): w.clone() for w in known}
        self.fail = self.alloc.fail_at(fault["alloc"] if fault else 0)
        self.target = edited = None
        outcome = "ok"
        try:
            edited = getattr(self, "op_" + name)(*args)
        except Violation:
            raise
        except MemoryError:
            if not (fault and self.alloc.fired):
                raise
            self.ctx.fault("allocation_fails")
            outcome = "no-memory"
            for w in known:
                o = before[id(w)]
                w.expect(o.P, o.d, o.U, o.V)
            edited = self.target
        if edited is not None or name in ("read", "scribble", "drop", "view", "iso", "boundary"):
            self.ctx.count("op." + name)
        self.verify(edited, name if outcome == "ok" else name + ":failed")
        self.ctx.event(name, outcome, *[w.P.shape for w in self.pool])
        self.ctx.state(name, outcome, *sorted((w.d, w.P.shape) for w in self.pool[-2:]))

    def op_new(self, rows, deg, ku, kv, how):
        P = self.hand(layout(rows, how), "control points given to the constructor")
        U = None if ku is None else self.hand(np.array(ku, dtype=float), "knots given to the constructor")
        V = None if kv is None else self.hand(np.array(kv, dtype=float), "knots given to the constructor")
        with self.fail:
            s = self.nurbs.NURBSSurface(P, tuple(deg), U, V)
        A = np.array(rows, dtype=float)
        if A.shape[2] == 3:
            A = np.concatenate([A, np.ones(A.shape[:2] + (1,))], axis=2)
        return self.put(Slot(s).expect(A, deg, ku if ku is not None else default_knots(A.shape[0], deg[0]),
                                       kv if kv is not None else default_knots(A.shape[1], deg[1])))

    def op_read(self, i, kind, f, g):
        with self.fail:
            self.answer(self.slot(i), kind, f, g)

    def op_knots(self, i, d, seed):
        w = self.target = self.slot(i)
        r = Stream("sknots", seed)
        K = random_knots(r, w.P.shape[d], w.d[d], r.choice(["uniform", "random", "shifted"]))
        K = self.hand(np.array(K, dtype=float), "knots given to the setter")
        with self.fail:
            setattr(w.s, "knots_u" if d == 0 else "knots_v", K)
        if d == 0:
            w.U = np.array(K)
        else:
            w.V = np.array(K)
        return w

    def op_degree(self, i, p, q):
        w = self.slot(i)
        n, m = w.P.shape[:2]
        if p >= n or q >= m:
            return None
        w.s.degree = (p, q)
        return w.expect(w.P, (p, q), default_knots(n, p), default_knots(m, q))

    def op_insert(self, i, d, frac, count, snap):
        w = self.slot(i)
        t = self.param(w, d, frac, snap)
        K = w.U if d == 0 else w.V
        a, b = w.ref().domain()[d]
        count = min(count, w.d[d] - int(np.sum(np.abs(K - t) <= 1e-9 * (b - a))))
        if count < 1 or not a < t < b or w.P.shape[d] > 20:
            return None
        self.target = w
        old = w.clone()
        with self.fail:
            (w.s.insert_knot_u if d == 0 else w.s.insert_knot_v)(t, count)
        w.adopt()
        want = np.sort(np.concatenate([K, [near(K, t)] * count]))
        self.need("shape", np.array_equal(w.U if d == 0 else w.V, want) and np.array_equal(w.V if d == 0 else w.U, old.V if d == 0 else old.U),
                  "shape:insert-knots", lambda: f"{w.U.tolist()} {w.V.tolist()}")
        self.same(old, w, "insert", old.ref().domain())
        return w

    def same(self, old, new, what, box, map01=False):
        """new equals old over the parameter box (new's own domain must be that box, or the unit square)."""
        if "shape" not in self.judge:
            return
        r = old.ref()
        S = r.scale()
        (a, b), (c, d) = box
        iv = new.s.interval()
        want_iv = ((0.0, 1.0), (0.0, 1.0)) if map01 else box
        self.need("shape", np.allclose(iv, want_iv, rtol=1e-9, atol=1e-9), f"shape:{what}-domain", lambda: f"{iv}, expected {want_iv}")
        (a2, b2), (c2, d2) = iv
        for f, g in FR:
            u, v = a + (b - a) * f, c + (d - c) * g
            got, want = new.s.evaluate(np.array([a2 + (b2 - a2) * f, c2 + (d2 - c2) * g])), r.point(u, v)
            self.need("shape", close(got, want, S, 1e-7), f"shape:{what}",
                      lambda: f"at {(u, v)}: {got}, was {want}; degree {old.d} knots {old.U.tolist()} {old.V.tolist()} points {old.P.tolist()}")

    def op_normalize(self, i):
        w = self.target = self.slot(i)
        old = w.clone()
        with self.fail:
            w.s.normalize_knots()
        w.adopt()
        for K, L in ((w.U, old.U), (w.V, old.V)):
            self.need("state", close(K, (L - L[0]) / (L[-1] - L[0]), 1, 1e-12), "surface:normalize", lambda: f"{K.tolist()}")
        self.same(old, w, "normalize", old.ref().domain(), True)
        return w

    def copied(self, i, call):
        w = self.slot(i)
        with self.fail:
            s = call(w.s)
        return self.put(Slot(s).expect(w.P, w.d, w.U, w.V))

    def op_copy(self, i):
        return self.copied(i, lambda s: s.copy())

    def op_ccopy(self, i):
        return self.copied(i, copy.copy)

    def op_deepcopy(self, i):
        return self.copied(i, copy.deepcopy)

    def op_pickle(self, i):
        return self.copied(i, lambda s: pickle.loads(pickle.dumps(s)))

    def op_drop(self, i):
        if len(self.pool) > 1:
            import gc

            self.pool.pop(i % len(self.pool))
            gc.collect()
            self.ctx.fault("object_deleted_while_views_live")
        return None

    def op_view(self, i, flat):
        w = self.slot(i)
        v = np.asarray(w.s.control_points_flat_w if flat else w.s.control_points_w)
        self.need("state", np.array_equal(v.reshape(w.P.shape), w.P), "surface:view", lambda: f"{v.tolist()}")
        self.views.append([v, np.array(v)])
        if len(self.views) > 8:
            self.views.pop(0)
        return None

    def op_scribble(self, k, value):
        book = self.given + self.got
        if book:
            e = book[k % len(book)]
            if e[0].flags.writeable:
                e[0][...] = value
                e[1] = np.array(e[0])
                self.ctx.fault("caller_overwrites_its_array")
        return None

    # -- derived surfaces and curves
    def op_split(self, i, d, frac, snap):
        w = self.slot(i)
        t = self.param(w, d, frac, snap)
        if not self.cuttable(w, d, t):
            return None
        with self.fail:
            out = (self.nurbs.split_surface_u if d == 0 else self.nurbs.split_surface_v)(w.s, t)
        box = w.ref().domain()
        self.need("shape", len(out) == 2, "shape:split-count", f"{len(out)}")
        new = None
        for k, s in enumerate(out):
            part = list(box)
            part[d] = (box[d][0], t) if k == 0 else (t, box[d][1])
            new = self.put(Slot(s).adopt())
            self.same(w, new, "split", tuple(part))
        return new

    def op_subdivide(self, i, f, g, snap):
        w = self.slot(i)
        u, v = self.param(w, 0, f, snap), self.param(w, 1, g, snap)
        if not (self.cuttable(w, 0, u) and self.cuttable(w, 1, v)):
            return None
        with self.fail:
            out = self.nurbs.subdivide_surface(w.s, u, v)
        (a, b), (c, d) = w.ref().domain()
        self.need("shape", len(out) == 4, "shape:subdivide-count", f"{len(out)}")
        new = None
        for s, part in zip(out, [((a, u), (c, v)), ((a, u), (v, d)), ((u, b), (c, v)), ((u, b), (v, d))]):
            new = Slot(s).adopt()
            self.same(w, new, "subdivide", part)
        return self.put(new)

    def op_decompose(self, i, direction):
        w = self.slot(i)
        box = w.ref().domain()
        cuts = []
        for d in (0, 1):
            K = w.U if d == 0 else w.V
            inner = sorted({float(x) for x in K if box[d][0] < x < box[d][1]})
            if not all(self.cuttable(w, d, x) for x in inner):
                return None
            cuts.append([box[d][0]] + (inner if "uv"[d] in direction else []) + [box[d][1]])
        with self.fail:
            out = self.nurbs.decompose_surface(w.s, direction)
        want = [((a, b), (c, d)) for a, b in zip(cuts[0], cuts[0][1:]) for c, d in zip(cuts[1], cuts[1][1:])]
        self.need("shape", len(out) == len(want), "shape:decompose-count", lambda: f"{len(out)} pieces, expected {len(want)}")
        new = None
        for s, part in zip(out, want):
            new = Slot(s).adopt()
            self.same(w, new, "decompose", part)
        return self.put(new)

    def curve_is(self, c, P, p, K, at, what):
        r = RefCurve(np.array(c.control_pointsw), c.degree, c.knots)
        lo, hi = float(K[p]), float(K[len(K) - 1 - p])
        iv = c.interval()
        self.need("shape", abs(iv[0] - lo) <= 1e-9 * (1 + abs(lo)) and abs(iv[1] - hi) <= 1e-9 * (1 + abs(hi)), f"shape:{what}-domain", f"{iv}")
        if "shape" in self.judge:
            for f in (0.0, 0.2, 0.5, 0.77, 1.0):
                t = lo + (hi - lo) * f
                got, want = c.evaluate(t), at(t)
                self.need("shape", close(got, want, 1 + np.abs(P).max(), 1e-7), f"shape:{what}", lambda: f"at {t}: {got} vs {want}")

    def op_iso(self, i, d, frac, snap):
        w = self.slot(i)
        t = self.param(w, d, frac, snap)
        with self.fail:
            c = self.bi.extract_isocurve(w.s, t, "uv"[d])
        r = w.ref()
        E = w.P[..., :3] / w.P[..., 3:]
        if d == 0:
            self.curve_is(c, E, w.d[1], w.V, lambda x: r.point(t, x), "isocurve")
        else:
            self.curve_is(c, E, w.d[0], w.U, lambda x: r.point(x, t), "isocurve")
        return None

    def op_boundary(self, i):
        w = self.slot(i)
        with self.fail:
            cs = self.bi.extract_surface_boundaries(w.s)
        r = w.ref()
        (a, b), (c, d) = r.domain()
        E = w.P[..., :3] / w.P[..., 3:]
        self.need("shape", len(cs) == 4, "shape:boundary-count", f"{len(cs)}")
        for crv, u in zip(cs[:2], (a, b)):
            self.curve_is(crv, E, w.d[1], w.V, lambda x: r.point(u, x), "boundary")
        for crv, v in zip(cs[2:], (c, d)):
            self.curve_is(crv, E, w.d[0], w.U, lambda x: r.point(x, v), "boundary")
        return None

    def op_ruled(self, a, p, ku, b, q, kv):
        NC = self.nurbs.NURBSCurve
        mk = lambda pts, d, k: NC(np.array(pts, dtype=float), d, None if k is None else np.array(k, dtype=float))  # noqa: E731
        c1, c2 = mk(a, p, ku), mk(b, q, kv)
        m1, m2 = RefCurve(a, p, ku), RefCurve(b, q, kv)
        st = [(x.control_pointsw.tobytes(), x.knots.tobytes(), x.degree) for x in (c1, c2)]
        gaps = sorted({round(float(x), 12) for m in (m1, m2) for x in (m.U - m.U[0]) / (m.U[-1] - m.U[0])})
        if any(y - x < 1e-3 for x, y in zip(gaps, gaps[1:])):
            return None
        for m in (m1, m2):
            inner = [float(x) for x in m.U[m.p + 1:-m.p - 1]]
            if any(inner.count(x) > m.p for x in inner):
                return None
        with self.fail:
            s = self.ruled.ruled(c1, c2)
        for x, y, which in zip((c1, c2), st, ("first", "second")):
            self.need("isolation", (x.control_pointsw.tobytes(), x.knots.tobytes(), x.degree) == y, "ruled:curve-changed", which)
        w = self.put(Slot(s).adopt())
        if "shape" in self.judge:
            iv = s.interval()
            S = max(m1.scale(), m2.scale())
            flat = all(len(x) == 3 for x in a + b)
            for f in (0.0, 0.11, 0.5, 0.83, 1.0):
                e = []
                for m in (m1, m2):
                    lo, hi = m.domain()
                    e.append(m.point(lo + (hi - lo) * f))
                for g in (0.0, 1.0) + ((0.3,) if flat else ()):
                    got = s.evaluate(np.array([iv[0][0] + (iv[0][1] - iv[0][0]) * f, iv[1][0] + (iv[1][1] - iv[1][0]) * g]))
                    want = e[0] * (1 - g) + e[1] * g
                    self.need("shape", close(got, want, S, 1e-6), "shape:ruled", lambda: f"at {(f, g)}: {got} vs {want}")
        return w

    def op_bad(self, i, kind, frac):
        w = self.slot(i)
        s = w.s
        (a, b), (c, d) = w.ref().domain()
        raised, must = True, kind in ("split_edge", "iso_outside", "direction")
        try:
            if kind == "split_edge":
                self.nurbs.split_surface_u(s, a if frac < 0.5 else b)
            elif kind == "insert_edge":
                s.insert_knot_v(d + (d - c) * (0.1 + frac), 1)
            elif kind == "insert_many":
                s.insert_knot_u(a + (b - a) * 0.37, w.d[0] + 2)
            elif kind == "iso_outside":
                self.bi.extract_isocurve(s, b + (b - a) * (0.01 + frac), "u")
            elif kind == "direction":
                self.bi.extract_isocurve(s, a, "w") if frac < 0.5 else self.nurbs.decompose_surface(s, "w")
            else:
                s.evaluate("nowhere")
            raised = False
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            self.ctx.fault("refused_edit")
        if not raised:
            self.need("state", not must, f"surface:accepted:{kind}", "an impossible request was accepted")
            w.adopt()
        return w


def run_history(case, ctx, judge):
    w = World(ctx, judge)
    for op in case["ops"]:
        w.run(op)
        ctx.steps += 1
    return w
