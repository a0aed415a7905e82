"""C25: the API's vectors, points, matrices and bounding boxes are values: a history of edits and questions against plain numbers."""
import copy
import math

from props._curvesim import Alloc
from props._util import *
from sim import sched
from sim.core import Violation, exception_violation
from props.c22_composed import attempt

PROP = "C25"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 6000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 200000, "seconds": 400, "timeout": 60}}
STATES = "distinct (operation, kinds and values of what took part, outcome) tuples"
REAL = ["mmcore.api.vectors", "mmcore.api._base_vectors", "mmcore.api.bbox", "mmcore.geom.vec", "mmcore.numeric.aabb", "mmcore.numeric.vectors"]
STUB = ["numpy's array makers: one of them refuses memory"]
ASSUMPTIONS = ["no zero vector is normalised or asked for a direction", "a vector that is not a point is only transformed by matrices "
               "without translation", "an object is edited by one task at a time", "an interrupted edit of a box may have been carried out "
               "for some of its coordinates"]

VEC = ("v2", "v3", "p2", "p3")
MAT = ("m2", "m3")
BOX = ("b2", "b3")
MAXPOOL = 14


def dim(k):
    return int(k[1])


# ---------------------------------------------------------------- the cases

def num(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -3.0, rng.randrange(-16, 17) / 4, round(rng.uniform(-5, 5), 3)])


def nums(rng, n):
    return [num(rng) for _ in range(n)]


FRESH = ["vec", "vec", "vec", "mat", "mat", "box", "box"]
DERIVE = ["binary", "binary", "convert", "cross", "copy", "copy", "castvec", "castmat", "castbox", "matmul", "matmul", "union", "intersection", "boxof", "frompoints"]
EDIT = ["inplace", "inplace", "inplace", "scale", "subtract", "addto", "normalize", "setarray", "setcoord", "transform", "transform", "cell", "setmatrix",
        "identity", "invert", "mtransform", "frame", "align", "rotate", "rotate", "rotateto", "rotateto", "translate", "expand", "expand", "combine",
        "combine", "corner", "bad"]
ASK = ["length", "dot", "angle", "parallel", "perpendicular", "equal", "eq", "array", "array", "det", "mequal", "getframe", "gettranslation",
       "contains", "contains", "intersects", "overlap", "size", "centroid", "vertices", "odd"]


def op(rng, mix=None):
    kind = mix or rng.weighted([("new", 10), ("derive", 25), ("edit", 40), ("ask", 25)])
    f = rng.choice({"new": FRESH, "derive": DERIVE, "edit": EDIT, "ask": ASK}[kind])
    return [f, [rng.randrange(64) for _ in range(4)], nums(rng, 16), rng.randrange(64)]


def generate(rng, config):
    ops = [op(rng, "new") for _ in range(rng.choice([3, 4, 6]))]
    body = [op(rng) for _ in range(rng.choice([4, 10, 20, 30]))]
    case = {"env": base_env(rng)}
    if config == "faults":
        for o in body:
            if rng.chance(0.5):
                o.append({"kind": rng.choice(["line", "linemem", "alloc", "alloc"]), "where": round(rng.random(), 4)})
    if config == "concurrent":
        case["ops"] = ops + body[:rng.choice([0, 3])]
        case["tasks"] = [[op(rng, "new"), op(rng, "new"), op(rng, "derive")] + [op(rng) for _ in range(rng.choice([2, 4, 8]))] for _ in range(rng.choice([2, 2, 3]))]
        case["sched"] = pick_sched(rng)
    else:
        case["ops"] = ops + body
    return case


# ---------------------------------------------------------------- the run

def setup():
    import mmcore.api  # noqa: F401
    import mmcore.api.bbox  # noqa: F401
    import mmcore.api.vectors  # noqa: F401
    import scipy.spatial.transform  # noqa: F401


def api(k):
    from mmcore.api import bbox, vectors

    return {"v2": vectors.Vector2D, "v3": vectors.Vector3D, "p2": vectors.Point2D, "p3": vectors.Point3D, "m2": vectors.Matrix2D,
            "m3": vectors.Matrix3D, "b2": bbox.BoundingBox2D, "b3": bbox.BoundingBox3D}[k]


def read(k, o):
    if k in VEC:
        return np.array([o.x, o.y, o.z][: dim(k)] if dim(k) == 3 else [o.x, o.y], float)
    if k in MAT:
        n = dim(k) + 1
        return np.array([[o.get_cell(r, c) for c in range(n)] for r in range(n)], float)
    return np.array([[getattr(c, a) for a in "xyz"[: dim(k)]] for c in (o.min, o.max)], float)


def turn(angle, axis):
    """Rotation by Rodrigues' formula."""
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


class Slot:
    __slots__ = ("k", "o", "v")

    def __init__(self, k, o, v):
        self.k, self.o, self.v = k, o, np.array(v, float)


class Plan:
    """What an operation does and what has to come of it."""

    def __init__(self, do, edits=(), new=(), answer=None, raises=False, same=None, tol=1e-9, touched=()):
        self.do, self.edits, self.new, self.answer = do, list(edits), list(new), answer
        self.raises, self.same, self.tol = raises, same, tol
        self.touched = touched  # arrays handed in or out: scribbled on afterwards


class World:
    def __init__(self, ctx, shared=()):
        self.ctx = ctx
        self.shared = list(shared)
        self.own = []

    def all(self):
        return self.shared + self.own

    def pick(self, i, kinds, edited=False):
        c = [s for s in (self.own if edited else self.all()) if s.k in kinds]
        return c[i % len(c)] if c else None

    # every operation: what it does to the library's objects, and to numbers
    def plan(self, o):
        return getattr(self, "op_" + o[0])(o[1], o[2], o[3])

    def op_vec(self, js, x, n):
        k = VEC[n % 4]
        d = dim(k)
        v = x[:d]
        how = (n // 4) % 4
        a = np.array(v)
        cls = api(k)
        if how == 0:
            return Plan(lambda: cls(a), new=[(k, v)], touched=[a])
        if how == 1:
            return Plan(lambda: cls.create(*v), new=[(k, v)])
        if how == 2:
            return Plan(lambda: cls.cast(a), new=[(k, v)], touched=[a])
        if (n // 16) % 2:
            return Plan(lambda: cls(), new=[(k, [0.0] * d)])
        w = (v + x[d:d + 2])[: 2 if d == 3 else 3]
        return Plan(lambda: cls.cast(tuple(w)), new=[(k, (w + [0.0])[:d])])

    def op_mat(self, js, x, n):
        k = MAT[n % 2]
        d = dim(k) + 1
        cls = api(k)
        how = (n // 2) % 4
        a = np.array(x[: d * d]).reshape(d, d)
        if how == 0:
            return Plan(lambda: cls.create(), new=[(k, np.eye(d))])
        a[-1] = [0.0] * (d - 1) + [1.0]
        v = a.copy()
        if how == 1:
            return Plan(lambda: cls.cast(a), new=[(k, v)], touched=[a])
        if how == 2:
            return Plan(lambda: cls(a.tolist()), new=[(k, v)])
        return Plan(lambda: cls(a), new=[(k, v)], touched=[a])

    def op_box(self, js, x, n):
        k = BOX[n % 2]
        d = dim(k)
        m = 1 + (n // 8) % 4
        a = np.array((x * 2)[: d * m]).reshape(m, d)
        v = [a.min(axis=0), a.max(axis=0)]
        cls = api(k)
        how = (n // 2) % 4
        if how == 0:
            return Plan(lambda: cls(a), new=[(k, v)], touched=[a])
        if how == 1:
            return Plan(lambda: cls.create_from_array(a), new=[(k, v)], touched=[a])
        if how == 2:
            return Plan(lambda: cls.cast(a.tolist()), new=[(k, v)])
        return Plan(lambda: cls.create_from_many_points([api("p%d" % d)(q) for q in a]), new=[(k, v)], touched=[a])

    def op_binary(self, js, x, n):
        a = self.pick(js[0], VEC)
        if a is None:
            return None
        f = ["+", "-", "*"][n % 3]
        how = (n // 3) % 3
        other = self.operand(a, js, x, how)
        if other is None:
            return None
        b, bv = other
        fn = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q}[f]
        return Plan(lambda: fn(a.o, b), new=[(a.k, fn(a.v, bv))])

    def operand(self, a, js, x, how):
        if how == 0:
            b = self.pick(js[1], [k for k in VEC if dim(k) == dim(a.k)])
            return b.o, b.v.copy()
        if how == 1:
            return x[0], x[0]
        b = x[: dim(a.k)]
        return (np.array(b) if js[2] % 2 else list(b)), np.array(b)

    def op_inplace(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        if a is None:
            return None
        f = ["+", "-", "*"][n % 3]
        b, bv = self.operand(a, js, x, (n // 3) % 3)
        fn = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q}[f]

        def do():
            v = a.o
            if f == "+":
                v += b
            elif f == "-":
                v -= b
            else:
                v *= b
            return v

        return Plan(do, edits=[(a, fn(a.v, bv))], same=a)

    def op_scale(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        return a and Plan(lambda: a.o.scale(x[0]), edits=[(a, a.v * x[0])])

    def op_subtract(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        if a is None:
            return None
        b = self.pick(js[1], [k for k in VEC if dim(k) == dim(a.k)])
        return Plan(lambda: a.o.subtract(b.o), edits=[(a, a.v - b.v)])

    def op_addto(self, js, x, n):
        a = self.pick(js[0], ("v3", "p3"), True)
        b = self.pick(js[1], ("v3", "p3"))
        return a and Plan(lambda: a.o.add(b.o), edits=[(a, a.v + b.v)])

    def op_normalize(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        if a is None or np.linalg.norm(a.v) < 1e-3:
            return None
        return Plan(lambda: a.o.normalize(), edits=[(a, a.v / np.linalg.norm(a.v))])

    def op_setarray(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        if a is None:
            return None
        c = np.array(x[: dim(a.k)])
        return Plan(lambda: a.o.set_with_array(c), edits=[(a, c.copy())], touched=[c])

    def op_setcoord(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        if a is None:
            return None
        c = n % dim(a.k)
        v = a.v.copy()
        v[c] = x[0]
        return Plan(lambda: setattr(a.o, "xyz"[c], x[0]), edits=[(a, v)])

    def moved(self, m, v):
        return (m.v @ np.append(v.v, 1.0))[: dim(v.k)]

    def moves(self, m, v):
        """May this matrix be used on this vector or point?"""
        d = dim(m.k)
        flat = np.all(m.v[-1] == [0.0] * d + [1.0])
        return flat and (v.k[0] == "p" or np.all(m.v[:d, d] == 0))

    def op_transform(self, js, x, n):
        a = self.pick(js[0], VEC, True)
        m = a and self.pick(js[1], ["m%d" % dim(a.k)])
        if not m or not self.moves(m, a):
            return None
        return Plan(lambda: a.o.transform(m.o), edits=[(a, self.moved(m, a))])

    def op_convert(self, js, x, n):
        a = self.pick(js[0], VEC)
        if a is None:
            return None
        d = dim(a.k)
        how = n % 3
        if how == 0:
            return Plan(lambda: a.o.as_point(), new=[("p%d" % d, a.v)])
        if how == 1:
            if d == 2:
                return Plan(lambda: a.o.to_vector3d(), new=[("v3", np.append(a.v, 0.0))])
            return Plan(lambda: a.o.to_vector2d(), new=[("v2", a.v[:2])])
        t = np.eye(d + 1)
        t[:d, d] = a.v
        return Plan(lambda: a.o.to_translation(), new=[("m%d" % d, t)])

    def op_cross(self, js, x, n):
        a, b = self.pick(js[0], ("v3", "p3")), self.pick(js[1], ("v3", "p3"))
        if a is None:
            return None
        (p, q, r), (s, t, u) = a.v, b.v
        return Plan(lambda: a.o.cross(b.o), new=[("v3", [q * u - r * t, r * s - p * u, p * t - q * s])])

    def op_copy(self, js, x, n):
        a = self.pick(js[0], VEC + MAT + BOX)
        if a is None:
            return None
        if n % 3:
            return Plan(lambda: a.o.copy(), new=[(a.k, a.v)])
        return Plan(lambda: copy.deepcopy(a.o), new=[(a.k, a.v)])

    def op_castvec(self, js, x, n):
        k = VEC[n % 4]
        a = self.pick(js[0], VEC)
        return a and Plan(lambda: api(k).cast(a.o), new=[(k, np.append(a.v, 0.0)[: dim(k)])])

    def op_castmat(self, js, x, n):
        a = self.pick(js[0], MAT)
        return a and Plan(lambda: api(a.k).cast(a.o), new=[(a.k, a.v)])

    def op_castbox(self, js, x, n):
        a = self.pick(js[0], BOX)
        k = a and ("b2" if a.k == "b3" else "b3")
        return a and Plan(lambda: api(k).cast(a.o), new=[(k, np.hstack([a.v, [[0.0], [0.0]]])[:, : dim(k)])])

    def op_matmul(self, js, x, n):
        m = self.pick(js[0], MAT)
        if m is None:
            return None
        if n % 2:
            b = self.pick(js[1], [m.k])
            return Plan(lambda: m.o @ b.o, new=[(m.k, m.v @ b.v)])
        v = self.pick(js[1], ["v" + m.k[1], "p" + m.k[1]])
        if not v or not self.moves(m, v):
            return None
        return Plan(lambda: m.o @ v.o, new=[(v.k, self.moved(m, v))])

    def boxes(self, js, edited=False):
        a = self.pick(js[0], BOX, edited)
        return a, a and self.pick(js[1], [a.k])

    def op_union(self, js, x, n):
        a, b = self.boxes(js)
        return a and Plan(lambda: a.o.union(b.o), new=[(a.k, [np.minimum(a.v[0], b.v[0]), np.maximum(a.v[1], b.v[1])])])

    def op_intersection(self, js, x, n):
        a, b = self.boxes(js)
        if a is None:
            return None
        lo, hi = np.maximum(a.v[0], b.v[0]), np.minimum(a.v[1], b.v[1])
        if np.any(lo > hi):
            return Plan(lambda: a.o.intersection(b.o), answer=lambda got: got is None)
        return Plan(lambda: a.o.intersection(b.o), new=[(a.k, [lo, hi])])

    def op_boxof(self, js, x, n):
        """A box made of two points of the pool, which go on being edited."""
        a = self.pick(js[0], ("p2", "p3"))
        if a is None:
            return None
        b = self.pick(js[1], [a.k])
        if np.any(a.v > b.v):
            return None
        cls = api("b" + a.k[1])
        make = cls.create if n % 2 else cls.create_from_min_max_points
        return Plan(lambda: make(a.o, b.o), new=[("b" + a.k[1], [a.v, b.v])])

    def op_frompoints(self, js, x, n):
        a = self.pick(js[0], ("p2", "p3"))
        if a is None:
            return None
        pts = [a] + [self.pick(j, [a.k]) for j in js[1: 2 + n % 3]]
        v = np.array([p.v for p in pts])
        return Plan(lambda: api("b" + a.k[1]).create_from_many_points([p.o for p in pts]), new=[("b" + a.k[1], [v.min(axis=0), v.max(axis=0)])])

    def op_cell(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        if m is None:
            return None
        d = dim(m.k)
        r, c = n % d, (n // 4) % (d + 1)
        v = m.v.copy()
        v[r, c] = x[0]
        return Plan(lambda: m.o.set_cell(r, c, x[0]), edits=[(m, v)])

    def op_setmatrix(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        if m is None:
            return None
        d = dim(m.k) + 1
        a = np.array(x[: d * d]).reshape(d, d)
        if n % 2:
            a[-1] = [0.0] * (d - 1) + [1.0]
        v = a.copy()
        if (n // 2) % 2:
            return Plan(lambda: m.o.set_with_array(a), edits=[(m, v)], touched=[a])
        return Plan(lambda: m.o.set_with_array(a.ravel().tolist()), edits=[(m, v)])

    def op_identity(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        return m and Plan(lambda: m.o.set_to_identity(), edits=[(m, np.eye(dim(m.k) + 1))])

    def op_invert(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        if m is None:
            return None
        if np.any(np.all(m.v == 0, axis=1)):
            return Plan(lambda: m.o.invert(), raises=True)
        if np.linalg.cond(m.v) > 1e4:
            return None
        return Plan(lambda: m.o.invert(), edits=[(m, np.linalg.inv(m.v))], tol=1e-8)

    def op_mtransform(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        b = m and self.pick(js[1], [m.k])
        return m and Plan(lambda: m.o.transform(b.o), edits=[(m, m.v @ b.v)])

    def frame(self, d, js, n):
        """An origin and axes from the pool, and the matrix they mean."""
        o = self.pick(js[0], ["p%d" % d])
        ax = [self.pick(js[1] + i * (1 + n % 3), ["v%d" % d, "p%d" % d]) for i in range(d)]
        if o is None:
            return None
        v = np.eye(d + 1)
        for i, a in enumerate(ax):
            v[:d, i] = a.v
        v[:d, d] = o.v
        return [o] + ax, v

    def op_frame(self, js, x, n):
        m = self.pick(js[3], MAT, True)
        f = m and self.frame(dim(m.k), js, n)
        return f and Plan(lambda: m.o.set_with_coordinate_system(*[s.o for s in f[0]]), edits=[(m, f[1])])

    def op_align(self, js, x, n):
        m = self.pick(js[3], MAT, True)
        f = m and self.frame(dim(m.k), js, n)
        g = m and self.frame(dim(m.k), js[2:] + js[:2], n // 3)
        if not f or np.linalg.cond(f[1]) > 1e4:
            return None
        return Plan(lambda: m.o.set_to_align_coordinate_systems(*[s.o for s in f[0] + g[0]]), edits=[(m, g[1] @ np.linalg.inv(f[1]))], tol=1e-8)

    def op_rotate(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        o = m and self.pick(js[1], ["p" + m.k[1]])
        if not o:
            return None
        if m.k == "m2":
            R = turn(x[0], [0, 0, 1])[:2, :2]
            about = np.zeros(2) if n % 3 == 0 else o.v
            do = (lambda: m.o.set_to_rotation(x[0])) if n % 3 == 0 else (lambda: m.o.set_to_rotation(x[0], o.o))
        else:
            ax = self.pick(js[2], ("v3", "p3"))
            if np.linalg.norm(ax.v) < 1e-3:
                return None
            R, about = turn(math.radians(x[0] * 30), ax.v), o.v
            do = lambda: m.o.set_to_rotation(x[0] * 30, ax.o, o.o)  # noqa: E731
        v = np.eye(dim(m.k) + 1)
        v[:-1, :-1] = R
        v[:-1, -1] = about - R @ about
        return Plan(do, edits=[(m, v)])

    def op_rotateto(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        ks = m and ["v" + m.k[1], "p" + m.k[1]]
        a, b = m and self.pick(js[1], ks), m and self.pick(js[2], ks)
        if not a or min(np.linalg.norm(a.v), np.linalg.norm(b.v)) < 1e-3:
            return None
        p, q = a.v / np.linalg.norm(a.v), b.v / np.linalg.norm(b.v)
        v = np.eye(dim(m.k) + 1)
        if m.k == "m2":
            t = math.atan2(p[0] * q[1] - p[1] * q[0], p @ q)
            v[:2, :2] = turn(t, [0, 0, 1])[:2, :2]
            return Plan(lambda: m.o.set_to_rotate_to(a.o, b.o), edits=[(m, v)])
        c = np.cross(p, q)
        if np.linalg.norm(c) > 1e-4:
            v[:3, :3] = turn(math.atan2(np.linalg.norm(c), p @ q), c)
        elif np.linalg.norm(c) > 1e-12:
            return None
        elif p @ q < 0:
            # opposite: half a turn about the axis given, if it is at right angles to both
            u = np.cross(p, np.roll(p, 1) + [0.3, 0.1, -0.2])
            if np.linalg.norm(u) < 1e-2:
                return None
            v[:3, :3] = turn(math.pi, u)
            axis = api("v3")(u)
            return Plan(lambda: m.o.set_to_rotate_to(a.o, b.o, axis), edits=[(m, v)], tol=1e-7)
        return Plan(lambda: m.o.set_to_rotate_to(a.o, b.o), edits=[(m, v)], tol=1e-7)

    def op_translate(self, js, x, n):
        m = self.pick(js[0], MAT, True)
        a = m and self.pick(js[1], ["v" + m.k[1], "p" + m.k[1]])
        if not a:
            return None
        v = m.v.copy()
        v[: dim(m.k), dim(m.k)] = a.v
        return Plan(lambda: setattr(m.o, "translation", a.o), edits=[(m, v)])

    def op_expand(self, js, x, n):
        b = self.pick(js[0], BOX, True)
        p = b and self.pick(js[1], ["p" + b.k[1]])
        if not p:
            return None
        return Plan(lambda: b.o.expand(p.o), edits=[(b, [np.minimum(b.v[0], p.v), np.maximum(b.v[1], p.v)])])

    def op_combine(self, js, x, n):
        a, b = self.boxes(js, True)
        return a and Plan(lambda: a.o.combine(b.o), edits=[(a, [np.minimum(a.v[0], b.v[0]), np.maximum(a.v[1], b.v[1])])])

    def op_corner(self, js, x, n):
        """A point of the pool becomes a corner of the box and goes on being a point of its own."""
        b = self.pick(js[0], BOX, True)
        p = b and self.pick(js[1], ["p" + b.k[1]])
        if not p:
            return None
        v = b.v.copy()
        v[n % 2] = p.v
        if np.any(v[0] > v[1]):
            return None
        return Plan(lambda: setattr(b.o, ["min_point", "max_point"][n % 2], p.o), edits=[(b, v)])

    def op_bad(self, js, x, n):
        """Edits that cannot be carried out."""
        how = n % 3
        if how == 0:
            a = self.pick(js[0], VEC, True)
            return a and Plan(lambda: a.o.set_with_array(x[: dim(a.k) + 2]), raises=True)
        m = self.pick(js[0], MAT, True)
        if m is None:
            return None
        if how == 1:
            return Plan(lambda: m.o.set_with_array(x[:5]), raises=True)
        return Plan(lambda: setattr(m.o, "translation", x[: dim(m.k)]), raises=True)

    # questions
    def op_length(self, js, x, n):
        a = self.pick(js[0], VEC)
        return a and Plan(lambda: a.o.length, answer=lambda g: near(g, np.linalg.norm(a.v)))

    def pair(self, js):
        a = self.pick(js[0], VEC)
        return a, a and self.pick(js[1], [k for k in VEC if dim(k) == dim(a.k)])

    def op_dot(self, js, x, n):
        a, b = self.pair(js)
        return a and Plan(lambda: a.o.dot(b.o), answer=lambda g: near(g, float(np.sum(a.v * b.v))))

    def cosine(self, js):
        a, b = self.pair(js)
        if a is None or min(np.linalg.norm(a.v), np.linalg.norm(b.v)) < 1e-3:
            return None
        return a, b, float(a.v @ b.v / (np.linalg.norm(a.v) * np.linalg.norm(b.v)))

    def op_angle(self, js, x, n):
        c = self.cosine(js)
        return c and Plan(lambda: c[0].o.angle_to(c[1].o), answer=lambda g: abs(g - math.acos(max(-1, min(1, c[2])))) < 1e-6)

    def op_parallel(self, js, x, n):
        c = self.cosine(js)
        if not c or 1e-9 < 1 - abs(c[2]) < 1e-3:
            return None
        return Plan(lambda: c[0].o.is_parallel(c[1].o), answer=lambda g: bool(g) is (1 - abs(c[2]) < 1e-6))

    def op_perpendicular(self, js, x, n):
        c = self.cosine(js)
        if not c or 1e-12 < abs(c[2]) < 1e-4:
            return None
        return Plan(lambda: c[0].o.is_perpendicular(c[1].o), answer=lambda g: bool(g) is (abs(c[2]) < 1e-6))

    def alike(self, a, b):
        d = float(np.max(np.abs(a.v - b.v)))
        return True if d == 0 else False if d > 1e-3 * (1 + np.max(np.abs(b.v))) else None

    def op_equal(self, js, x, n):
        a, b = self.pair(js)
        r = self.alike(a, b) if a else None
        return None if r is None else Plan(lambda: a.o.is_equal(b.o), answer=lambda g: bool(g) is r)

    def op_eq(self, js, x, n):
        a, b = self.pair(js)
        r = self.alike(a, b) if a else None
        return None if r is None else Plan(lambda: (a.o == b.o, a.o != b.o), answer=lambda g: (bool(g[0]), bool(g[1])) == (r, not r))

    def op_odd(self, js, x, n):
        """Compared with what is no vector of its dimension."""
        a = self.pick(js[0], VEC)
        if a is None:
            return None
        other = [None, "x", 3.5, api("v3" if dim(a.k) == 2 else "v2")()][n % 4]
        return Plan(lambda: (a.o == other, a.o != other), answer=lambda g: tuple(g) == (False, True))

    def op_array(self, js, x, n):
        s = self.pick(js[0], VEC + MAT + BOX)
        if s is None:
            return None
        if s.k in BOX:
            return Plan(lambda: np.array(s.o), answer=lambda g: near(np.sort(g, axis=0), np.sort(s.v, axis=0), 0.0), touched="answer")
        f = [lambda: s.o.as_array(), (lambda: s.o.to_data()) if s.k in VEC else (lambda: s.o.as_array()),
             (lambda: np.array(s.o)) if s.k in VEC else (lambda: s.o.as_array())][n % 3]
        return Plan(f, answer=lambda g: near(np.asarray(g).ravel(), s.v.ravel(), 0.0), touched="answer")

    def op_det(self, js, x, n):
        m = self.pick(js[0], MAT)
        return m and Plan(lambda: m.o.determinant, answer=lambda g: abs(g - np.linalg.det(m.v)) <= 1e-9 * (1 + np.max(np.abs(m.v))) ** (dim(m.k) + 1))

    def op_mequal(self, js, x, n):
        a = self.pick(js[0], MAT)
        b = a and self.pick(js[1], [a.k])
        r = self.alike(a, b) if a else None
        return None if r is None else Plan(lambda: a.o.is_equal_to(b.o), answer=lambda g: bool(g) is r)

    def op_getframe(self, js, x, n):
        m = self.pick(js[0], MAT)
        if m is None:
            return None
        d = dim(m.k)
        return Plan(lambda: m.o.get_as_coordinate_system(), new=[("p%d" % d, m.v[:d, d])] + [("v%d" % d, m.v[:d, i]) for i in range(d)])

    def op_gettranslation(self, js, x, n):
        m = self.pick(js[0], MAT)
        if m is None:
            return None
        d = dim(m.k)
        return Plan(lambda: m.o.translation, new=[("v%d" % d, m.v[:d, d])])

    def op_contains(self, js, x, n):
        b = self.pick(js[0], BOX)
        p = b and self.pick(js[1], ["p" + b.k[1]])
        if n % 2 and b:  # a point made for it: on a corner, within, or outside in one coordinate only
            q = b.v[0] + (b.v[1] - b.v[0]) * np.array([[0.0, 1.0, 0.5][(n // 2 + i) % 3] for i in range(dim(b.k))])
            if n // 4 % 3:
                q[n % dim(b.k)] += [0, 1, -1][n // 4 % 3] * (1 + b.v[1][n % dim(b.k)] - b.v[0][n % dim(b.k)])
            p = Slot("p" + b.k[1], api("p" + b.k[1])(q), q)
        if not p:
            return None
        r = bool(np.all(b.v[0] <= p.v) and np.all(p.v <= b.v[1]))
        return Plan(lambda: b.o.contains(p.o), answer=lambda g: bool(g) is r)

    def op_intersects(self, js, x, n):
        a, b = self.boxes(js)
        if a is None:
            return None
        r = bool(np.all(np.maximum(a.v[0], b.v[0]) <= np.minimum(a.v[1], b.v[1])))
        return Plan(lambda: a.o.intersects(b.o), answer=lambda g: bool(g) is r)

    def op_overlap(self, js, x, n):
        a, b = self.boxes(js)
        if a is None:
            return None
        r = bool(np.all(np.maximum(a.v[0], b.v[0]) <= np.minimum(a.v[1], b.v[1])))
        return Plan(lambda: a.o.overlap(b.o), answer=lambda g: bool(g) is r)

    def op_size(self, js, x, n):
        b = self.pick(js[0], BOX)
        if b is None:
            return None
        s = b.v[1] - b.v[0]
        if n % 2:
            return Plan(lambda: b.o.sizes(), answer=lambda g: near(g, s), touched="answer")
        return Plan(lambda: b.o.area() if b.k == "b2" else b.o.volume(), answer=lambda g: near(g, float(np.prod(s))))

    def op_centroid(self, js, x, n):
        b = self.pick(js[0], BOX)
        return b and Plan(lambda: b.o.centroid, answer=lambda g: near(g, (b.v[0] + b.v[1]) / 2), touched="answer")

    def op_vertices(self, js, x, n):
        b = self.pick(js[0], BOX)
        if b is None:
            return None
        import itertools

        want = np.array(sorted(itertools.product(*b.v.T.tolist())))
        return Plan(lambda: b.o.to_vertices(), answer=lambda g: near(np.array(sorted(np.asarray(g).tolist())), want), touched="answer")


def scribble(x):
    for a in x if isinstance(x, (tuple, list)) else [x]:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
            a[...] = 7.7e11


def too_big(p):
    vs = [v for _, v in p.edits] + [v for _, v in p.new]
    return any(np.max(np.abs(np.asarray(v, float)), initial=0.0) > 1e5 or not np.all(np.isfinite(np.asarray(v, float))) for v in vs)


def step(w, ctx, o, interruptible=True):
    p = w.plan(o)
    if not p or too_big(p):
        return
    f = o[4] if len(o) > 4 else None
    broken = None
    if f and interruptible:
        box, fired = failing(ctx, p, f)
        if fired:
            broken = box
    else:
        try:
            box = ("value", p.do())
        except Exception as e:  # noqa: BLE001
            box = ("error", e)
    what = f"{o[0]} of {[s.k for s in w.all()]}"
    if broken is not None and broken[0] == "error":
        settle(w, ctx, p, o, interrupted=f["kind"])
        return
    if p.raises:
        ctx.check(box[0] == "error", f"{o[0]}:accepted", lambda: f"{what}: an edit that cannot be carried out came out as {box}")
        settle(w, ctx, Plan(None), o)
        return
    if box[0] == "error":
        raise exception_violation(box[1])
    got = box[1]
    if p.answer is not None:
        ctx.check(p.answer(got), f"{o[0]}:answer", lambda: f"{what}: {got!r}; now {[(s.k, s.v.tolist()) for s in w.all()]}")
    if p.same is not None:
        ctx.check(got is p.same.o, f"{o[0]}:identity", lambda: f"{what}: the vector became {got!r}")
    fresh = list(got) if isinstance(got, tuple) else [got]
    if p.new:
        ctx.check(len(fresh) == len(p.new), f"{o[0]}:answer", lambda: f"{what}: {got!r}")
        for x, (k, v) in zip(fresh, p.new):
            ctx.check(type(x) is api(k), f"{o[0]}:kind", lambda: f"{what}: {x!r} is no {api(k).__name__}")
            r = read(k, x)
            ctx.check(near(r, v, p.tol), f"{o[0]}:value", lambda: f"{what}: {r.tolist()}, should be {np.asarray(v).tolist()}")
    if p.touched == "answer":
        scribble(got)
    else:
        for a in p.touched:
            scribble(a)
    settle(w, ctx, p, o)
    for x, (k, v) in zip(fresh, p.new):
        if len(w.own) < MAXPOOL:
            ctx.check(all(x is not s.o for s in w.all()), f"{o[0]}:identity", lambda: f"{what}: handed out an object that is in use")
            s = Slot(k, x, read(k, x))
            w.own.append(s)


def failing(ctx, p, f):
    if f["kind"] == "alloc":
        a = Alloc()
        with a.fail_at(1 + int(f["where"] * 6)):
            box, _ = attempt(ctx, p.do)
        if a.fired:
            ctx.fault("allocation_refused")
        fired = a.fired
    else:
        box, _ = attempt(ctx, p.do, [{"task": 0, "at": 1 + int(f["where"] * 12), "kind": "interrupt" if f["kind"] == "line" else "nomem"}])
        fired = box[0] == "error" and isinstance(box[1], (sched.Injected, MemoryError, KeyboardInterrupt))
    if fired and box[0] == "error" and not isinstance(box[1], (sched.Injected, MemoryError, KeyboardInterrupt)):
        if p.raises:
            return box, False
        raise exception_violation(box[1])
    return box, fired


def settle(w, ctx, p, o, interrupted=None):
    """Everything is what it was, but for what this operation edits."""
    after = {id(s): np.asarray(v, float) for s, v in p.edits}
    for s in w.all():
        r = read(s.k, s.o)
        if id(s) not in after:
            ctx.check(near(r, s.v, 0.0), f"{o[0]}:bystander", lambda: f"{o[0]} left a {s.k} at {r.tolist()}, it was {s.v.tolist()}")
            continue
        v = after[id(s)]
        if interrupted is None:
            ctx.check(near(r, v, p.tol), f"{o[0]}:value", lambda: f"{o[0]}: {s.k} is {r.tolist()}, should be {v.tolist()} (was {s.v.tolist()})")
        elif s.k in BOX:
            tol = p.tol * (1 + np.max(np.abs(v)))
            ctx.check(bool(np.all((np.abs(r - v) <= tol) | (r == s.v))), f"{o[0]}:half-done",
                      lambda: f"{o[0]} failed and left {s.k} at {r.tolist()}; was {s.v.tolist()}, to be {v.tolist()}")
        else:
            ctx.check(near(r, v, p.tol) or near(r, s.v, 0.0), f"{o[0]}:half-done",
                      lambda: f"{o[0]} failed and left {s.k} at {r.tolist()}; was {s.v.tolist()}, to be {v.tolist()}")
        s.v = r
    ctx.count("op." + o[0])
    ctx.event(o[0], [s.v.tolist() for s in w.own[-4:]], interrupted)
    ctx.state(o[0], [s.k for s in w.own], [np.round(s.v, 3).tolist() for s, _ in p.edits], interrupted)


def execute(case, ctx):
    setup()
    w = World(ctx)
    for o in case["ops"]:
        step(w, ctx, o)
    if "tasks" not in case:
        return
    worlds = [World(ctx, w.own) for _ in case["tasks"]]
    logs = [[] for _ in case["tasks"]]

    def task(k):
        def go():
            mine = worlds[k]
            for o in case["tasks"][k]:
                p = mine.plan(o)
                if not p or p.raises or too_big(p):
                    continue
                got = p.do()
                if p.touched == "answer":
                    logs[k].append((o, p.answer(got), None))
                    scribble(got)
                    continue
                for a in p.touched:
                    scribble(a)
                fresh = list(got) if isinstance(got, tuple) else [got]
                for s, v in p.edits:
                    logs[k].append((o, near(read(s.k, s.o), v, p.tol), np.asarray(v).tolist()))
                    s.v = read(s.k, s.o)
                for x, (kk, v) in zip(fresh, p.new):
                    r = read(kk, x)
                    logs[k].append((o, near(r, v, p.tol), np.asarray(v).tolist()))
                    if len(mine.own) < MAXPOOL:
                        mine.own.append(Slot(kk, x, r))
                if p.answer is not None:
                    logs[k].append((o, p.answer(got), None))
        return go

    ts = run_tasks(case, ctx, [task(k) for k in range(len(worlds))], limit=4_000_000)
    for t in ts:
        if t.error is not None:
            raise t.error if isinstance(t.error, Violation) else exception_violation(t.error)
    for k, log in enumerate(logs):
        for o, ok, want in log:
            ctx.check(ok, f"{o[0]}:beside-others", lambda: f"task {k}: {o[0]} did not come to {want}")
            ctx.event("task", k, o[0], want)
            ctx.state("task", o[0], want)
    for w2 in [w] + worlds:
        for s in w2.own:
            r = read(s.k, s.o)
            ctx.check(near(r, s.v, 0.0), "bystander:beside-others", lambda: f"a {s.k} is {r.tolist()}, it was {s.v.tolist()}")
