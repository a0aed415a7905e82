"""C23: vectors, planes, boxes and differences over arrays: each row gets its own answer, whatever memory held before."""
import importlib
import math

from props import _asks
from props._util import *

PROP = "C23"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "concurrent", "faults"]
PLAN = {"quick": {"seeds": 12000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 400000, "seconds": 300, "timeout": 60}}
STATES = "distinct (function, layout of the arguments, answer) tuples and interleavings"
REAL = ["mmcore.numeric.vectors", "mmcore.geom.vec", "mmcore.numeric.plane and its cplane", "mmcore.numeric._aabb", "mmcore.numeric.aabb",
        "mmcore.numeric.calgorithms", "mmcore.numeric.numeric", "mmcore.geom.evaluator.surface_evaluator", "mmcore.numeric.routines"]
STUB = ["the surface a caller differentiates is a function of the harness (it may raise, be preempted, or ask the library itself)",
        "numpy's array makers: one of them refuses memory; what fresh memory holds is chosen by the seed"]
ASSUMPTIONS = ["vectors that are divided by have a length, planes that are intersected are not parallel",
               "an answer that a formula leaves open (parallel directions) only has to be the same whatever memory held"]

M = {}
HELD = []


def setup():
    for k, n in [("V", "numeric.vectors"), ("vec", "geom.vec"), ("plane", "numeric.plane"), ("cp", "numeric.plane.cplane"), ("aabb", "numeric.aabb"),
                 ("ca", "numeric.calgorithms"), ("num", "numeric.numeric"), ("ev", "geom.evaluator.surface_evaluator"), ("rt", "numeric.routines")]:
        M[k] = importlib.import_module("mmcore." + n)


# ---------------------------------------------------------------- arguments

def comp(rng):
    return rng.choice([float(rng.randrange(-3, 4)), round(rng.uniform(-5, 5), 3)])


def vec(rng, d=3, length=True):
    while True:
        s = rng.weighted([(1.0, 6), (1e-3, 1), (1e3, 1)])
        v = [comp(rng) * s for _ in range(d)]
        if rng.chance(0.3):
            j = rng.randrange(d)
            v = [0.0 if i != j else x for i, x in enumerate(v)]
        if not length or sum(x * x for x in v) > 0.04 * s * s:
            return v


def rows(rng, n, d=3, length=True):
    return [vec(rng, d, length) for _ in range(n)] if n else {"empty": d}


def count(rng):
    return rng.weighted([(1, 3), (2, 3), (3, 2), (5, 2), (17, 1), (64, 1), (0, 1)])


def frame(rng):
    """An origin and a right-handed orthonormal frame; often along the axes."""
    if rng.chance(0.4):
        e = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
        k = rng.randrange(3)
        x, y = e[k], e[(k + 1) % 3]
        if rng.chance(0.5):
            y = [-t for t in y]
    else:
        x = np.array(vec(rng))
        x = x / np.linalg.norm(x)
        while True:
            y = np.array(vec(rng))
            y = y / np.linalg.norm(y)
            y = y - x * (x @ y)
            if np.linalg.norm(y) > 0.2:
                break
        y = y / np.linalg.norm(y)
    return np.array([[comp(rng) for _ in range(3)], x, y, np.cross(x, y)], float).tolist()


def transversal(rng, n, check):
    while True:
        p = [frame(rng) for _ in range(n)]
        if check([np.array(q[3]) for q in p]):
            return p


def two(ns):
    return np.linalg.norm(np.cross(ns[0], ns[1])) > 0.15


def three(ns):
    return abs(np.linalg.det(np.array(ns))) > 0.1


LAYOUTS = ["c", "c", "strided", "reversed", "f", "part"]


def laid(x, how):
    """The same numbers, differently placed in memory."""
    if isinstance(x, dict):
        return np.zeros((0, x["empty"]))
    a = np.array(x, float)
    if a.ndim == 0 or a.size == 0 or how == "c":
        return a
    if how == "f":
        return np.asfortranarray(a)
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "strided":
        big = np.full((2 * a.shape[0], *a.shape[1:]), 7e5)
        big[::2] = a
        return big[::2]
    big = np.full(tuple(n + 3 for n in a.shape), -8e5)
    s = tuple(slice(1, n + 1) for n in a.shape)
    big[s] = a
    return big[s]


# ---------------------------------------------------------------- the questions

ASKS = {}


def ask(name, *makers, tol=1e-9, n=1, raises=None):
    """makers(rng) -> arguments; the function returns (what the library says, what the formula says) as thunks."""
    def deco(fn):
        ASKS[name] = {"gen": makers[0], "fn": fn, "tol": tol, "raises": raises}
        return fn
    return deco


def pair(d=None):
    def gen(rng):
        n, k = count(rng), d or rng.choice([2, 3, 3, 3, 4])
        return [rows(rng, n, k), rows(rng, n, k)]
    return gen


def vr(rng):
    k = rng.choice([2, 3, 3, 4])
    return [vec(rng, k), rows(rng, count(rng), k)]


def rv(rng):
    return vr(rng)[::-1]


def some(d=None, length=True):
    def gen(rng):
        return [rows(rng, count(rng), d or rng.choice([2, 3, 3, 4]), length)]
    return gen


def one(*ds):
    return lambda rng: [vec(rng, d) for d in ds]


for name in ("dot_array_x_array", "dot"):
    ask(name, pair())(lambda a, b, _n=name: (lambda: getattr(M["V"], _n)(a, b), lambda: (a * b).sum(-1)))
ask("dot_vec_x_array", vr)(lambda a, b: (lambda: M["V"].dot_vec_x_array(a, b), lambda: b @ a))
ask("dot_array_x_vec", rv)(lambda a, b: (lambda: M["V"].dot_array_x_vec(a, b), lambda: a @ b))


def mats(rng):
    n, i, j, k = count(rng), *[rng.randrange(1, 5) for _ in range(3)]
    return [[rows(rng, i, j, False) for _ in range(n)], [rows(rng, j, k, False) for _ in range(n)]] if n else [[rows(rng, i, j, False)], [rows(rng, j, k, False)]]


ask("matmul_array", mats)(lambda a, b: (lambda: M["V"].matmul_array(a, b), lambda: a @ b))
ask("scalar_dot", one(3, 3))(lambda a, b: (lambda: M["V"].scalar_dot(a, b), lambda: a @ b))
ask("vec.dot", one(3, 3))(lambda a, b: (lambda: M["vec"].dot(a, b), lambda: a @ b))
ask("scalar_norm", one(3))(lambda a: (lambda: M["V"].scalar_norm(a), lambda: np.sqrt(a @ a)))
ask("norm", some())(lambda a: (lambda: M["V"].norm(a), lambda: np.sqrt((a * a).sum(-1))))
ask("vec.norm", some())(lambda a: (lambda: M["vec"].norm(a), lambda: np.sqrt((a * a).sum(-1))))
ask("vec.dist", pair())(lambda a, b: (lambda: M["vec"].dist(a, b), lambda: np.sqrt(((a - b) ** 2).sum(-1))))
ask("unit", some())(lambda a: (lambda: M["V"].unit(a), lambda: a / np.sqrt((a * a).sum(-1))[:, None]))
ask("vec.unit", some())(lambda a: (lambda: M["vec"].unit(a), lambda: a / np.sqrt((a * a).sum(-1))[:, None]))
ask("scalar_unit", one(3))(lambda a: (lambda: M["V"].scalar_unit(a), lambda: a / np.sqrt(a @ a)))
ask("cross", pair(3))(lambda a, b: (lambda: M["V"].cross(a, b), lambda: np.cross(a, b) if len(a) else np.zeros((0, 3))))
ask("scalar_cross", one(3, 3))(lambda a, b: (lambda: M["V"].scalar_cross(a, b), lambda: np.cross(a, b)))
ask("vec.cross", one(3, 3))(lambda a, b: (lambda: M["vec"].cross(a, b), lambda: np.cross(a, b)))
ask("gram_schmidt", pair())(lambda a, b: (lambda: M["V"].gram_schmidt(a, b), lambda: b - a * (a * b).sum(-1)[:, None]))
ask("vector_projection", one(3, 3))(lambda a, b: (lambda: M["V"].vector_projection(a, b), lambda: b * (a @ b) / (b @ b)))
ask("closest_point_on_ray", one(3, 3, 3))(lambda s, d, p: (lambda: M["V"].closest_point_on_ray(s, d, p), lambda: s + d * ((p - s) @ d) / (d @ d)))


def segm(rng):
    while True:
        a = [vec(rng) for _ in range(3)]
        d = np.array(a[0]) - np.array(a[1])
        if d @ d > 1e-3 * (1 + np.dot(a[0], a[0])):
            return a


def foot(s, e, p):
    d = e - s
    return s + d * ((p - s) @ d) / (d @ d)


ask("closest_point_on_line", segm, tol=1e-7)(lambda s, e, p: (lambda: M["V"].closest_point_on_line(s, e, p), lambda: foot(s, e, p)))


@ask("scalar_normalize", one(3))
def _(a):
    b = a.copy()  # normalised in place
    return lambda: (M["V"].scalar_normalize(b), b.copy()), lambda: (1, a / np.sqrt(a @ a))


@ask("scalar_gram_schmidt", one(3, 3))
def _(a, b):
    def go():
        r = np.full(3, 5e5)
        M["V"].scalar_gram_schmidt(a, b, r)
        return r
    return go, lambda: b - a * (a @ b)


@ask("multi_support_vector", lambda rng: [rows(rng, rng.choice([1, 3, 8, 20])), rows(rng, rng.choice([1, 2, 5]))])
def _(p, d):
    def expect(got):
        s = p @ d.T
        got = np.asarray(got)
        return got.shape == d.shape and all(any(np.array_equal(g, q) for q in p) for g in got) and \
            np.allclose((got * d).sum(-1), s.max(0), rtol=1e-9, atol=1e-9 * (1 + np.abs(s).max()))
    return lambda: M["V"].multi_support_vector(p, d), expect


@ask("support_vector", lambda rng: [rows(rng, rng.choice([1, 3, 8, 20])), vec(rng)])
def _(p, d):
    def expect(got):
        got = np.asarray(got)
        s = p @ d
        return any(np.array_equal(got, q) for q in p) and got @ d >= s.max() - 1e-9 * (1 + np.abs(s).max())
    return lambda: np.array(M["V"].support_vector(p, d)), expect


def sph(a):
    r, t, p = a.T
    return np.stack([r * np.sin(t) * np.cos(p), r * np.sin(t) * np.sin(p), r * np.cos(t)], -1)


def cyl(a):
    return np.stack([a[:, 0] * np.cos(a[:, 1]), a[:, 0] * np.sin(a[:, 1]), a[:, 2]], -1)


ask("spherical_to_cartesian", some(3))(lambda a: (lambda: M["V"].spherical_to_cartesian(a), lambda: sph(a)))
ask("cylindrical_to_xyz", some(3))(lambda a: (lambda: M["V"].cylindrical_to_xyz(a), lambda: cyl(a)))


def back(f, to, low):
    """The inverse of a change of coordinates, in the usual ranges."""
    def fn(a):
        def expect(got):
            got = np.asarray(got)
            return got.shape == a.shape and np.all(got[:, 0] >= 0) and np.allclose(to(got), a, rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max(initial=0))) \
                and low(got)
        return lambda: getattr(M["V"], f)(a), expect
    return fn


ask("cartesian_to_spherical", some(3))(back("cartesian_to_spherical", sph, lambda g: np.all((g[:, 1] >= 0) & (g[:, 1] <= math.pi + 1e-12))))
ask("courtesan_to_cylindrical", some(3))(back("courtesan_to_cylindrical", cyl, lambda g: np.all(np.abs(g[:, 1]) <= math.pi + 1e-12)))


def loops(rng):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        n = rng.randrange(3, 8)
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if ang[-1] - ang[0] < 3.3:
            ang[-1] = ang[0] + 3.5
        c = vec(rng, 2)
        p = [[c[0] + 2 * math.cos(a), c[1] + 2 * math.sin(a)] for a in ang]
        p = p + [p[0]]
        out.append(p[::-1] if rng.chance(0.5) else p)
    return [out]


def turns(p):
    a, b = p[:-1], p[1:]
    return 1 if (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]).sum() > 0 else 0


ask("multi_points_order", loops)(lambda ps: (lambda: M["V"].multi_points_order(list(ps)), lambda: [turns(p) for p in ps]))


def jac(rng):
    n = rng.choice([0, 1, 2, 5])
    return [[rows(rng, 2, 2) for _ in range(n)] if n else rows(rng, 2, 2)]


@ask("invert_jacobian", jac, tol=1e-7)
def _(j):
    def expect(got):
        inv, st = np.asarray(got[0]), np.asarray(got[1])
        for a, b, c in zip(*((j, inv, st) if j.ndim == 3 else ([j], [inv], [st]))):
            det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            if abs(det) > 1e-6 * np.abs(a).max() ** 2:
                if c != 0 or not np.allclose(a @ b, np.eye(2), atol=1e-7):
                    return False
            elif det == 0 and c == 0:
                return False
        return st.shape == j.shape[:-2]

    def go():
        inv, st = M["V"].invert_jacobian(j)
        inv, st = np.array(inv), np.array(st)
        inv[st != 0] = 0  # what is left there was never promised
        return inv, st
    return go, expect


def spread(rng, n):
    while True:
        a, b = vec(rng), vec(rng)
        c = np.cross(a, b)
        if c @ c > 0.02 * np.dot(a, a) * np.dot(b, b):
            x = [[comp(rng), comp(rng)] for _ in range(n)]
            off = [rng.choice([0.0, comp(rng)]) for _ in range(n)]
            c = c / np.sqrt(c @ c)
            return [[(p * np.array(a) + q * np.array(b) + o * c).tolist() for (p, q), o in zip(x, off)], a, b]


def parts(v, a, b):
    return np.linalg.lstsq(np.stack([a, b], -1), v.T, rcond=None)[0].T


ask("decompose_vectors", lambda rng: spread(rng, rng.choice([1, 2, 5])), tol=1e-6)(lambda v, a, b: (lambda: M["V"].decompose_vectors(v, a, b), lambda: parts(v, a, b)))
ask("decompose_vector", lambda rng: spread(rng, 1), tol=1e-6)(lambda v, a, b: (lambda: M["V"].decompose_vector(v[0], a, b), lambda: parts(v, a, b)[0]))
ask("normal_from_4pt", one(3, 3, 3, 3))(lambda a, b, c, d: (lambda: M["V"].normal_from_4pt(a, b, c, d), lambda: np.cross(c - a, d - b)))
ask("decompose_parallel", lambda rng: (lambda v, k: [vec(rng), v, [k * x for x in v]])(vec(rng), rng.choice([1.0, -1.0, 2.0, 0.0])))(
    lambda v, a, b: (lambda: M["V"].decompose_vector(v, a, b), lambda got: True))
ask("vec.angle", one(3, 3))(lambda a, b: (lambda: M["vec"].angle(a / np.sqrt(a @ a), b / np.sqrt(b @ b)),
                                         lambda got: abs(math.cos(got) - (a @ b) / np.sqrt((a @ a) * (b @ b))) < 1e-9 and 0 <= got <= math.pi + 1e-12))
ask("vec.angle3pt", lambda rng: (lambda o, a, k: [a, o, [x + k * (y - x) for x, y in zip(o, a)]])(*segm(rng)[:2], rng.choice([1.0, 2.5, -1.0, 0.3])), tol=1e-6)(
    lambda a, o, b: (lambda: M["vec"].angle3pt(a, o, b), lambda: 0.0 if (a - o) @ (b - o) > 0 else math.pi))
ask("vec.orthonormalize", lambda rng: [frame(rng), [comp(rng) for _ in range(3)]])(
    lambda f, k: (lambda: M["vec"].orthonormalize(f[1] * 2, f[2] + k[0] * f[1], f[3] + k[1] * f[1] + k[2] * f[2]), lambda: (f[1], f[2], f[3])))


@ask("vec.orthonormalize.owned", lambda rng: [frame(rng), [comp(rng) for _ in range(3)]])
def _(f, k):
    given = [f[1] * 2, f[2] + k[0] * f[1], f[3] + k[1] * f[1] + k[2] * f[2]]
    kept = [x.copy() for x in given]

    def go():
        M["vec"].orthonormalize(*given)
        return [bool(np.array_equal(x, y)) for x, y in zip(given, kept)]
    return go, lambda got: all(got)


# planes

def at(p, x):
    return p[0] + x @ p[1:]


def local(p, x):
    return (x - p[0]) @ p[1:].T


def fr_pts(rng):
    return [frame(rng), rows(rng, count(rng))]


ask("evaluate_plane", lambda rng: [frame(rng), vec(rng)])(lambda p, x: (lambda: M["cp"].evaluate_plane(p, x), lambda: at(p, x)))
ask("inverse_evaluate_plane", lambda rng: [frame(rng), vec(rng)])(lambda p, x: (lambda: M["cp"].inverse_evaluate_plane(p, x), lambda: local(p, x)))
ask("evaluate_plane_arr", fr_pts)(lambda p, x: (lambda: M["cp"].evaluate_plane_arr(p, x.reshape(-1, 3)), lambda: at(p, x.reshape(-1, 3))))
ask("inverse_evaluate_plane_arr", fr_pts)(lambda p, x: (lambda: M["cp"].inverse_evaluate_plane_arr(p, x.reshape(-1, 3)), lambda: local(p, x.reshape(-1, 3))))


def is_line(p, q, got):
    """A point on both planes and the direction both of them contain."""
    got = np.asarray(got)
    d = np.cross(p[3], q[3])
    s = 1e-8 * (1 + np.abs(p[0]).max() + np.abs(q[0]).max()) / np.linalg.norm(d) ** 2
    return got.shape == (2, 3) and abs((got[0] - p[0]) @ p[3]) < s and abs((got[0] - q[0]) @ q[3]) < s and \
        min(np.abs(got[1] - d).max(), np.abs(got[1] + d).max()) < 1e-9


ask("plane_plane_intersect", lambda rng: transversal(rng, 2, two))(
    lambda p, q: (lambda: M["cp"].plane_plane_intersect(p, q), lambda got: is_line(p, q, got)))
ask("plane_plane_normal_intersect", lambda rng: transversal(rng, 2, two))(
    lambda p, q: (lambda: M["cp"].plane_plane_normal_intersect(p[0], p[3], q[0], q[3]), lambda got: is_line(p, q, got)))


def stacks(rng):
    """Planes in arrays of one to four dimensions."""
    n = rng.choice([1, 2, 3, 6])
    shape = rng.choice([[n], [n], [1, n], [2, n]])
    m = int(np.prod(shape))
    a, b = [], []
    for _ in range(m):
        p, q = transversal(rng, 2, two)
        a.append(p)
        b.append(q)
    how = rng.choice(["both", "both", "first"])
    if how == "first":
        b = b[0]
        while not all(two([np.array(p[3]), np.array(b[3])]) for p in a):
            b = frame(rng)
        b = np.array(b).tolist()
    else:
        b = np.array(b).reshape(*shape, 4, 3).tolist()
    return [np.array(a).reshape(*shape, 4, 3).tolist(), b]


def each_line(a, b, shape):
    def expect(got):
        got = np.asarray(got)
        if got.shape != (*shape, 2, 3):
            return False
        A = a.reshape(-1, 4, 3)
        B = np.broadcast_to(b, a.shape).reshape(-1, 4, 3) if b.ndim == 2 else b.reshape(-1, 4, 3)
        return all(is_line(p, q, g) for p, q, g in zip(A, B, got.reshape(-1, 2, 3)))
    return expect


@ask("planes_planes", stacks)
def _(a, b):
    A = a.reshape(-1, 4, 3)
    if b.ndim == 2:
        return lambda: M["cp"].planes_plane_intersect(A, b), each_line(A, b, (len(A),))
    return lambda: M["cp"].planes_planes_intersect(A, b.reshape(-1, 4, 3)), each_line(A, b.reshape(-1, 4, 3), (len(A),))


@ask("plane_plane_intersection", lambda rng: [*stacks(rng), [rng.choice([0.0, 1.0]), rng.choice([0.0, 0.0, 1.0])]])
def _(a, b, how):
    out = np.full((*a.shape[:-2], 2, 3), 4e5) if how[0] else None
    x, y = (b, a) if how[1] else (a, b)
    return lambda: np.array(M["plane"].plane_plane_intersection(x, y, out)), each_line(a, b, a.shape[:-2])


@ask("planes_unpaired", lambda rng: [[frame(rng) for _ in range(3)], [frame(rng) for _ in range(rng.choice([1, 2, 4]))]], raises=(ValueError,))
def _(a, b):
    return lambda: M["plane"].plane_plane_intersection(a, b), None


@ask("plane_plane_plane", lambda rng: [*transversal(rng, 3, three), [rng.choice([0.0, 1.0])]])
def _(p, q, r, how):
    def expect(got):
        got = np.asarray(got)
        s = 1e-7 * (1 + max(np.abs(x[0]).max() for x in (p, q, r)))
        return got.shape == (3,) and all(abs((got - x[0]) @ x[3]) < s for x in (p, q, r))
    if how[0]:
        return lambda: M["plane"].plane_plane_plane_intersect(p, q, r), expect
    return lambda: M["plane"].plane_plane_plane_intersect_points_and_normals(p[0], p[3], q[0], q[3], r[0], r[3]), expect


def rays(rng):
    while True:
        p, o, d = frame(rng), vec(rng), vec(rng)
        if abs(np.dot(p[3], d)) > 0.1 * np.linalg.norm(d) or rng.chance(0.1) and np.dot(p[3], d) == 0:
            t = np.dot(p[3], np.array(p[0]) - np.array(o))
            if abs(t) > 1e-6:
                return [p, [o, d]]


def hit(p, ray):
    den = p[3] @ ray[1]
    if den == 0:
        return None
    t = p[3] @ (p[0] - ray[0]) / den
    return (t, ray[0] + t * ray[1])


def hits(p, ray, line=False):
    h = hit(p, ray)
    return None if h is None or h[0] < 0 and not line else h[1]


ask("plane_ray", rays, tol=1e-8)(lambda p, r: (lambda: M["plane"].plane_ray_intersection(p, r), lambda: hits(p, r)))
ask("plane_ray.short", rays, tol=1e-8)(lambda p, r: (lambda: M["plane"].plane_ray_intersection(p[[0, 3]], r), lambda: hits(p, r)))
ask("ray_plane", rays, tol=1e-8)(lambda p, r: (lambda: M["plane"].ray_plane_intersection(p[[0, 3]], r), lambda: hits(p, r)))
ask("plane_line", rays, tol=1e-8)(lambda p, r: (lambda: M["plane"].plane_line_intersection(p, r), lambda: hits(p, r, True)))


@ask("ray_plane_parametric", lambda rng: [*rays(rng), [comp(rng), rng.choice([1.0, 2.0, 0.5])]], tol=1e-7)
def _(p, r, k):
    p = p.copy()
    p[1], p[2] = p[1] * k[1], p[2] + k[0] * p[1] / 3  # any two directions in the plane

    def expect():
        q = hits(p, r)
        if q is None:
            return None
        return q, np.linalg.lstsq(np.stack([p[1], p[2]], -1), q - p[0], rcond=None)[0]
    return lambda: M["cp"].ray_plane_parametric_intersection(p, r), expect


ask("project", fr_pts)(lambda p, x: ((lambda: [M["plane"].project(p, y) for y in x.reshape(-1, 3)]),
                                     lambda: [y - p[3] * ((y - p[0]) @ p[3]) for y in x.reshape(-1, 3)]))
ask("project_point_by_normal", lambda rng: [frame(rng), vec(rng)])(
    lambda p, x: (lambda: M["plane"].project_point_by_normal(x, p[3], p[0]), lambda: x - p[3] * ((x - p[0]) @ p[3])))
ask("distance", lambda rng: [frame(rng), vec(rng), [rng.choice([1.0, 2.0, 0.3])]])(
    lambda p, x, k: (lambda: M["plane"].distance(np.array([p[0], p[1], p[2], p[3] * k[0]]), x), lambda: abs((x - p[0]) @ p[3])))


def corner(rng):
    while True:
        a, b, c = vec(rng), vec(rng), vec(rng)
        u, v = np.subtract(b, a), np.subtract(c, a)
        if np.linalg.norm(np.cross(u, v)) > 0.1 * np.linalg.norm(u) * np.linalg.norm(v) and min(np.linalg.norm(u), np.linalg.norm(v)) > 0.1:
            return [a, b, c]


@ask("plane_from_3pt", corner)
def _(a, b, c):
    def expect(got):
        p, eq = np.asarray(got[0]), np.asarray(got[1])
        s = 1e-6 * (1 + np.abs(np.stack([a, b, c])).max())
        return np.abs(p[1:] @ p[1:].T - np.eye(3)).max() < 1e-7 and np.linalg.det(p[1:]) > 0 and \
            all(abs((x - p[0]) @ p[3]) < s and abs(x @ eq[:3] + eq[3]) < s * np.linalg.norm(eq[:3]) for x in (a, b, c))
    return lambda: M["plane"].plane_from_3pt(a, b, c), expect


@ask("plane_from_eq", corner)
def _(a, b, c):
    def expect(got):
        o, n = np.asarray(got[0]), np.asarray(got[1])
        s = 1e-6 * (1 + np.abs(np.stack([a, b, c, o])).max())
        return abs(n @ n - 1) < 1e-9 and all(abs((x - o) @ n) < s for x in (a, b, c))
    return lambda: M["plane"].plane_from_eq(M["plane"].plane_eq_from_pts(a, b, c)), expect


@ask("plane_signed_distance", lambda rng: [corner(rng), rows(rng, rng.choice([1, 3, 6]))], tol=1e-6)
def _(c, x):
    eq = M["plane"].plane_eq_from_pts(*c)
    eq = eq / np.linalg.norm(eq[:3])
    return lambda: M["plane"].plane_signed_distance(eq, x), lambda: (x - c[0]) @ eq[:3]


@ask("plane_from_normal2", one(3, 3))
def _(o, n):
    n = n / np.sqrt(n @ n)

    def expect(got):
        p = np.asarray(got)
        return np.array_equal(p[0], o) and np.abs(p[1:] @ p[1:].T - np.eye(3)).max() < 1e-9 and np.abs(p[3] - n).max() < 1e-9
    return lambda: M["plane"].plane_from_normal2(o, n), expect


# boxes

def boxes(rng, d=3):
    out = []
    for _ in range(2):
        a = [float(rng.randrange(-4, 3)) for _ in range(d)]
        out.append([a, [x + rng.choice([0.0, 1.0, 2.0, 5.0]) for x in a]])
    return out


def meet(a, b):
    return bool(np.all(a[0] <= b[1]) and np.all(a[1] >= b[0]))


ask("aabb", lambda rng: [rows(rng, rng.choice([1, 2, 9, 40]), rng.choice([2, 3, 4]), False)])(lambda p: (lambda: M["aabb"].aabb(p), lambda: np.stack([p.min(0), p.max(0)])))
ask("aabb_intersect", lambda rng: boxes(rng, rng.choice([2, 3, 3])))(lambda a, b: (lambda: bool(M["aabb"].aabb_intersect(a, b)), lambda: meet(a, b)))
ask("aabb_overlap", lambda rng: boxes(rng, rng.choice([2, 3, 3])))(lambda a, b: (lambda: bool(M["aabb"].aabb_overlap(a, b)), lambda: meet(a, b)))
ask("aabb_intersect_fast_3d", boxes)(lambda a, b: (lambda: bool(M["aabb"].aabb_intersect_fast_3d(a, b)), lambda: meet(a, b)))
ask("aabb_intersection", lambda rng: [*boxes(rng), [rng.choice([0.0, 1.0])]])(
    lambda a, b, h: (lambda: M["aabb"].aabb_intersection(a, b, *([np.full((2, 3), 3e5)] if h[0] else [])),
                     lambda: np.stack([np.maximum(a[0], b[0]), np.minimum(a[1], b[1])]) if meet(a, b) else None))
ask("point_in_aabb", lambda rng: (lambda b: [b, [rng.choice([b[0][i], b[1][i], comp(rng)]) for i in range(len(b[0]))]])(boxes(rng, rng.choice([2, 3]))[0]))(
    lambda b, p: (lambda: bool(M["aabb"].point_in_aabb(b, p)), lambda: bool(np.all(b[0] <= p) and np.all(p <= b[1]))))


def box_seg(rng):
    b = boxes(rng)[0]
    s = [[rng.choice([float(rng.randrange(-5, 6)), rng.uniform(-6, 6)]) for _ in range(3)] for _ in range(2)]
    if rng.chance(0.3):
        a = rng.randrange(3)
        s[1][a] = s[0][a]
    return [b, s]


def clip(b, s):
    """The part of a segment in a box, with how clear the answer is."""
    lo, hi = 0.0, 1.0
    d = s[1] - s[0]
    for i in range(3):
        if d[i] == 0:
            if not b[0][i] <= s[0][i] <= b[1][i]:
                return None, 1.0
        else:
            x, y = sorted([(b[0][i] - s[0][i]) / d[i], (b[1][i] - s[0][i]) / d[i]])
            lo, hi = max(lo, x), min(hi, y)
    return ([lo, hi] if lo <= hi else None), abs(hi - lo)


def seg_ask(call, value):
    def fn(b, s):
        want, clear = clip(b, s)

        def expect(got):
            if got is None or want is None:
                return (got is None) == (want is None) or clear < 1e-9
            return np.allclose(np.asarray(got, float), value(s, want), atol=1e-9 * 20)
        return (lambda: call(b, s)), expect
    return fn


ask("segment_aabb_intersect", box_seg)(seg_ask(lambda b, s: M["aabb"].segment_aabb_intersect(b, s), lambda s, w: w))
ask("segment_aabb_clip", box_seg)(seg_ask(lambda b, s: M["aabb"].segment_aabb_clip(b, s, np.full((2, 3), 2e5)),
                                          lambda s, w: [s[0] + (s[1] - s[0]) * w[0], s[0] + (s[1] - s[0]) * w[1]]))


@ask("aabb_segm3d", one(3, 3))
def _(a, b):
    def go():
        out = np.full((2, 3), 6e5)
        M["aabb"].aabb_segm3d(a, b, out)
        return out
    return go, lambda: np.stack([np.minimum(a, b), np.maximum(a, b)])


# along curves

def curvature(d1, d2):
    n = np.sqrt(d1 @ d1)
    if n == 0:
        m = np.sqrt(d2 @ d2)
        return (d2 / m if m > 0 else np.zeros(3)), np.zeros(3), False
    t = d1 / n
    return t, (d2 - t * (d2 @ t)) / n ** 2, True


def dd(rng):
    return [vec(rng) if rng.chance(0.8) else [0.0] * 3, vec(rng) if rng.chance(0.9) else [0.0] * 3]


ask("evaluate_curvature", dd)(lambda a, b: (lambda: M["num"].evaluate_curvature(a, b), lambda: curvature(a, b)))
ask("evaluate_curvature_vec", pair(3))(lambda a, b: (
    lambda: M["num"].evaluate_curvature_vec(a.reshape(-1, 3), b.reshape(-1, 3)) if len(a) else None,
    lambda: [np.array(x) for x in zip(*[curvature(x, y) for x, y in zip(a, b)])] if len(a) else None))


@ask("calgorithms.evaluate_curvature", dd)
def _(a, b):
    def go():
        t, k = np.full(3, 9e5), np.full(3, 9e5)
        ok = M["ca"].evaluate_curvature(a, b, t, k)
        return t, k, bool(ok)
    return go, lambda: curvature(a, b)


@ask("calgorithms.evaluate_tangent", dd)
def _(a, b):
    def go():
        t = np.full(3, 9e5)
        M["ca"].evaluate_tangent(a, b, t)
        return t
    return go, lambda: curvature(a, b)[0]


ask("surface_jacobian", one(3, 3))(lambda a, b: (lambda: M["ca"].surface_jacobian(a, b), lambda: np.array([[a @ a, a @ b], [a @ b, b @ b]])))
ask("uvs", lambda rng: [[float(rng.choice([1, 2, 3, 7])), float(rng.choice([1, 2, 5]))], sorted([comp(rng), comp(rng)]), sorted([comp(rng), comp(rng)])])(
    lambda n, u, v: (lambda: M["rt"].uvs(int(n[0]), int(n[1]), (float(u[0]), float(u[1])), (float(v[0]), float(v[1]))),
                     lambda: [[x, y] for x in np.linspace(*u, int(n[0])) for y in np.linspace(*v, int(n[1]))]))
ask("cartesian_product", lambda rng: [vec(rng, rng.choice([1, 2, 4]), False) for _ in range(rng.choice([2, 3]))])(
    lambda *a: (lambda: M["rt"].cartesian_product(*a), lambda: np.stack([x.ravel() for x in np.meshgrid(*a, indexing="ij")], -1)))


# a surface given as a function

def shape(c):
    def f(u, v):
        return np.array([c[0] * math.cos(u) + c[1] * v, c[2] * math.sin(u * c[3]) * math.cos(v), c[4] * v * v + c[5] * u * v])

    def d(u, v):
        su, cu, s3, c3, sv, cv = math.sin(u), math.cos(u), math.sin(u * c[3]), math.cos(u * c[3]), math.sin(v), math.cos(v)
        return np.array([f(u, v),
                         [-c[0] * su, c[2] * c[3] * c3 * cv, c[5] * v],
                         [c[1], -c[2] * s3 * sv, 2 * c[4] * v + c[5] * u],
                         [-c[0] * cu, -c[2] * c[3] ** 2 * s3 * cv, 0],
                         [0, -c[2] * s3 * cv, 2 * c[4]],
                         [0, -c[2] * c[3] * c3 * sv, c[5]]])
    return f, d


def surf_gen(rng):
    n = rng.choice([1, 1, 2, 4])
    return [[round(rng.uniform(0.5, 2), 3) for _ in range(6)], [[round(rng.uniform(-1.5, 1.5), 3), round(rng.uniform(-1.5, 1.5), 3)] for _ in range(n)],
            [rng.choice([0.0, 0.0, 0.0, 1.0])]]


def surface(name, value, array):
    def fn(c, x, how, hook):
        f, d = shape(c)
        base = hook(f)
        cb = base
        if how[0]:  # the caller's function asks the library about another surface meanwhile
            g, _ = shape(c[::-1])

            def cb(u, v):
                M["ev"].derivatives(g, v, u)
                r = base(u, v)
                M["ev"].origin_derivatives_normal(g, u, v)
                return r

        def expect(got):
            got = np.asarray(got)
            want = [value(d(u, v)) for u, v in x]
            ok = np.array([w is not None for w in want])
            if not array:
                got = got[None]
            if got.shape[0] != len(x):
                return False
            return all(np.allclose(g, w, atol=2e-4 * (1 + np.abs(d(u, v)).max() ** 2)) for g, w, (u, v) in zip(got, want, x) if w is not None) or not ok.any()

        def go():
            if array:
                return getattr(M["ev"], name)(cb, np.ascontiguousarray(x[:, 0]), np.ascontiguousarray(x[:, 1]))
            return getattr(M["ev"], name)(cb, float(x[0, 0]), float(x[0, 1]))
        if not array:
            x = x[:1]
        return go, expect
    fn.hooked = True
    return fn


def with_normal(rows_):
    def value(d):
        n = np.cross(d[1], d[2])
        m = np.linalg.norm(n)
        return np.concatenate([d[rows_], [n / m]]) if m > 0.3 else None
    return value


for name, value in [("derivatives", lambda d: d[1:3]), ("second_derivatives", lambda d: d),
                    ("derivatives_normal", with_normal([1, 2])), ("origin_derivatives_normal", with_normal([0, 1, 2]))]:
    ask("surface." + name, surf_gen)(surface(name, value, False))
    ask("surface." + name + "_array", surf_gen)(surface(name + "_array", value, True))

for name, row in [("u", 1), ("v", 2), ("uu", 3), ("vv", 4), ("uv", 5)]:
    def single(c, x, how, hook, _n=name, _r=row):
        f, d = shape(c)
        cb = hook(f)

        def go():
            r = np.full(3, 8e5)
            getattr(M["ev"], "c_derivative_" + _n)(cb, float(x[0, 0]), float(x[0, 1]), r)
            return r
        return go, lambda got: np.allclose(got, d(*x[0])[_r], atol=1e-3 * (1 + np.abs(d(*x[0])).max()))
    single.hooked = True
    ask("surface.c_derivative_" + name, surf_gen)(single)


# ---------------------------------------------------------------- the run

def generate(rng, config):
    kinds = list(ASKS)
    if config != "plain":
        kinds = kinds + [k for k in kinds if k.startswith("surface.")] * 3

    def gen(r, k):
        return {"v": ASKS[k]["gen"](r), "lay": r.choice(LAYOUTS)}

    case = _asks.plan(rng, config, kinds, gen, most=8)
    case["env"] = base_env(rng)
    return case


def near(x, e, tol):
    if e is None or x is None:
        return x is None and e is None
    if isinstance(e, tuple) or isinstance(e, list) and e and not np.isscalar(e[0]):
        return len(x) == len(e) and all(near(a, b, tol) for a, b in zip(x, e))
    x, e = np.asarray(x, float), np.asarray(e, float)
    return x.shape == e.shape and bool(np.all(np.abs(x - e) <= tol * (1 + np.abs(e).max(initial=0))))


def execute(case, ctx):
    setup()
    HELD.clear()

    def make(k, a, hook):
        spec = ASKS[k]
        lay = a["lay"]
        inputs = [[laid(p, lay) for p in v] if k == "multi_points_order" else laid(v, lay) for v in a["v"]]
        fn = spec["fn"]
        call, _ = fn(*inputs, hook) if hasattr(fn, "hooked") else fn(*inputs)

        def thunk():
            r = call()
            HELD.append((k, r, _asks.freeze(r)))
            return r
        return inputs, thunk

    def judge(k, a, got, ctx):
        spec = ASKS[k]
        if spec["raises"]:
            ctx.check(isinstance(got, spec["raises"]), f"{k}:accepted", lambda: f"{a}: {got!r}")
            return
        if isinstance(got, BaseException):
            from sim.core import exception_violation

            raise exception_violation(got)
        inputs = [[np.array(p, float) for p in v] if k == "multi_points_order" else laid(v, "c") for v in a["v"]]
        fn = spec["fn"]
        _, expect = fn(*inputs, lambda f: f) if hasattr(fn, "hooked") else fn(*inputs)
        if expect.__code__.co_argcount:
            ctx.check(bool(expect(got)), f"{k}:wrong", lambda: f"{a}: {got}")
        else:
            e = expect()
            ctx.check(near(got, e, spec["tol"] * scale(a["v"])), f"{k}:wrong", lambda: f"{a}: {got}, expected {e}")

    _asks.run(case, ctx, make, judge)
    for k, r, kept in HELD:
        ctx.check(same(_asks.freeze(r), kept), f"{k}:answer-overwritten", "an answer given out earlier has changed")


def scale(v):
    big = 1.0
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack += x
        else:
            big = max(big, abs(x) if not isinstance(x, dict) else 0)
    return big ** 2
