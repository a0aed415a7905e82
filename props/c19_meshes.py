"""C19: triangulations cover exactly their region, keep what they were given and number it right."""
import importlib
import json
import math

from scipy.spatial import Delaunay

from props import _asks
from props.c18_regions import apart, graham, inside, shoelace, star
from props._util import *

PROP = "C19"
LEVEL = "exploration"
CONFIGS = ["plain", "concurrent", "faults", "plain"]
PLAN = {"quick": {"seeds": 3000, "seconds": 40, "timeout": 60}, "thorough": {"seeds": 80000, "seconds": 300, "timeout": 60}}
STATES = "distinct (question, calls of the caller's function, mesh) tuples and interleavings"
REAL = ["mmcore.topo.mesh.triangle (core.pyx and the Triangle library it wraps, tri.py)", "mmcore.topo.mesh.tess", "mmcore.geom.surfaces (tess)",
        "mmcore.geom.polygon", "mmcore.geom.bvh"]
STUB = ["the tessellated surface is a small class of the harness"]
ASSUMPTIONS = ["loops are simple, holes are convex and lie inside their boundary; points are a thousandth apart"]

M = {}
POOL = {}


def setup():
    for k, n in [("tri", "topo.mesh.triangle"), ("prep", "topo.mesh.triangle.tri"), ("tess", "topo.mesh.tess"), ("surf", "geom.surfaces"),
                 ("bspline", "geom.curves.bspline"), ("bvh", "geom.bvh")]:
        M[k] = importlib.import_module("mmcore." + n)


def cross(t):
    a, b = t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    return a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]


def spaced(rng, n, span=3.0, gap=0.02):
    out = []
    while len(out) < n:
        p = [round(rng.uniform(-span, span), 4) for _ in "xy"]
        if all(math.hypot(p[0] - q[0], p[1] - q[1]) > gap for q in out):
            out.append(p)
    return out


def region(rng):
    """A star-shaped boundary with convex holes around its centre line, apart from each other and the boundary."""
    k = rng.choice([1.0, 3.0])
    n = rng.randrange(4, 10)
    c = [round(rng.uniform(-3, 3), 3) for _ in "xy"]
    off = rng.uniform(0, 6.28)
    out = [[c[0] + k * f * math.cos(off + 2 * math.pi * i / n), c[1] + k * f * math.sin(off + 2 * math.pi * i / n)] for i in range(n) for f in [rng.uniform(0.75, 1.5)]]
    holes = []
    for i in range(rng.choice([0, 0, 1, 1, 2])):
        m = rng.randrange(3, 7)
        hc = [c[0] + k * (0.0 if i == 0 else 0.28) * math.cos(off), c[1] + k * (0.0 if i == 0 else 0.28) * math.sin(off)]
        h = [[hc[0] + 0.11 * k * math.cos(1 + 2 * math.pi * j / m), hc[1] + 0.11 * k * math.sin(1 + 2 * math.pi * j / m)] for j in range(m)]
        holes.append(h)
    a = {"b": [[round(x, 5) for x in p] for p in out], "h": [[[round(x, 5) for x in p] for p in h] for h in holes],
         "closed": [rng.chance(0.4) for _ in range(1 + len(holes))]}
    if rng.chance(0.4):
        a["b"] = a["b"][::-1]
    if n < 5:
        a["h"], a["closed"] = [], a["closed"][:1]  # too thin for holes
    return a


def mesh_checks(ctx, tag, v, t, given, outer, holes=(), segments=None):
    v, t = np.asarray(v, float), np.asarray(t)
    ctx.check(len(t) > 0 and t.min() >= 0 and t.max() < len(v), f"{tag}:numbering", lambda: f"triangles {t} of {len(v)} vertices")
    ctx.check(same(v[:len(given)], given), f"{tag}:moved", lambda: f"given {given}, have {v[:len(given)]}")
    area = cross(v[t])
    ctx.check(float(area.min()) > 0, f"{tag}:turned", lambda: f"a triangle has area {area.min() / 2}")
    want = shoelace(outer) - sum(shoelace(h) for h in holes)
    ctx.check(abs(area.sum() / 2 - want) < 1e-7 * max(1, want), f"{tag}:area", lambda: f"area {area.sum() / 2}, the region has {want}")
    for c in v[t].mean(axis=1):
        if apart(c, outer) > 1e-7:
            ctx.check(inside(c, outer if isinstance(outer, list) else outer.tolist()), f"{tag}:outside", lambda: f"a triangle around {c} lies outside")
        for h in holes:
            if apart(c, h) > 1e-7:
                ctx.check(not inside(c, h), f"{tag}:hole", lambda: f"a triangle around {c} lies in a hole")
    edges = {}
    for a, b, c in t.tolist():
        for e in ((a, b), (b, c), (c, a)):
            ctx.check(e not in edges, f"{tag}:overlap", lambda: f"two triangles lie on the same side of the edge {e}")
            edges[e] = 1
    if segments is not None:
        for a, b in segments:
            # the points on the segment, in order along it, are joined
            d = v[b] - v[a]
            n = float(d @ d)
            if n == 0:
                continue
            s = (v - v[a]) @ d / n
            off = np.abs((v[:, 0] - v[a, 0]) * d[1] - (v[:, 1] - v[a, 1]) * d[0]) / math.sqrt(n)
            on = [i for i in np.argsort(s) if -1e-9 <= s[i] <= 1 + 1e-9 and off[i] < 1e-9]
            for i, j in zip(on[:-1], on[1:]):
                ctx.check((i, j) in edges or (j, i) in edges, f"{tag}:segment", lambda: f"the segment {v[a]}..{v[b]} is broken at {v[i]}..{v[j]}")


ASK = {}


def ask(name):
    def keep(cls):
        ASK[name] = cls
        return cls

    return keep


@ask("points")
class _:
    """Point sets: Delaunay triangles, hull, neighbours, edges."""

    @staticmethod
    def gen(rng):
        return {"p": spaced(rng, rng.choice([3, 4, 7, 15, 30])), "how": rng.choice(["delaunay", "plain", "hull", "neighbours", "edges", "voronoi"]), "list": rng.chance(0.3)}

    @staticmethod
    def make(a, hook):
        p = a["p"] if a["list"] else np.array(a["p"], float)
        m = M["tri"]
        return [p], {"delaunay": lambda: m.delaunay(p), "plain": lambda: m.triangulate({"vertices": p}), "hull": lambda: m.convex_hull(p),
                     "neighbours": lambda: m.triangulate({"vertices": p}, "n"), "edges": lambda: m.triangulate({"vertices": p}, "e"),
                     "voronoi": lambda: list(m.voronoi(p))}[a["how"]]

    @staticmethod
    def judge(a, got, ctx):
        p = np.array(a["p"], float)
        hull = [list(x) for x in graham(a["p"])]
        if shoelace(hull) < 1e-2:
            return
        how = a["how"]
        if how == "hull":
            have = {tuple(p[i]) for s in np.asarray(got) for i in s}
            sharp = {tuple(x) for i, x in enumerate(hull)}
            ctx.check(sharp <= have, "points:hull", lambda: f"the hull {have} lacks {sharp - have}")
            ctx.check(all(apart(np.array(x), hull) < 1e-6 for x in have), "points:hull", lambda: f"{have} has a point that is not on the hull {sharp}")
            ctx.check(len(got) == len(have), "points:hull-closed", lambda: f"{len(got)} edges around {len(have)} corners")
            return
        if how == "voronoi":
            pts, edges, rays, dirs = got
            tri = Delaunay(p).simplices
            cc = centres(p[tri])
            flat = np.abs(cross(p[tri])).min() < 1e-3
            if flat or len(tri) != len(pts):
                ctx.check(flat or len(tri) == len(pts), "points:voronoi", lambda: f"{len(pts)} corners for {len(tri)} triangles")
                return
            far = max(float(np.linalg.norm(np.asarray(pts) - c, axis=1).min() / (1 + np.linalg.norm(c))) for c in cc)
            ctx.check(far < 1e-6, "points:voronoi", lambda: f"a circumcentre is {far} from any corner")
            return
        t = got if how == "delaunay" else got["triangles"]
        v = p if how == "delaunay" else got["vertices"]
        mesh_checks(ctx, "points", v, t, p, hull)
        c = centres(p[np.asarray(t)])
        r = np.linalg.norm(p[np.asarray(t)[:, 0]] - c, axis=1)
        for i in range(len(c)):
            ctx.check(float(np.linalg.norm(p - c[i], axis=1).min()) > r[i] * (1 - 1e-7) - 1e-9, "points:delaunay", "a point lies inside a triangle's circle")
        if how == "neighbours":
            n = np.asarray(got["neighbors"])
            for i, row in enumerate(np.asarray(t).tolist()):
                for j in range(3):
                    e = {row[(j + 1) % 3], row[(j + 2) % 3]}
                    want = [k for k, q in enumerate(np.asarray(t).tolist()) if k != i and e <= set(q)] or [-1]
                    ctx.check(n[i][j] == want[0], "points:neighbours", lambda: f"triangle {i} has {n[i][j]} beyond corner {j}, expected {want}")
        if how == "edges":
            want = {frozenset(e) for q in np.asarray(t).tolist() for e in (q[:2], q[1:], q[::2])}
            have = {frozenset(e) for e in np.asarray(got["edges"]).tolist()}
            ctx.check(have == want and len(got["edges"]) == len(want), "points:edges", lambda: f"{have}, expected {want}")


def centres(t):
    a, b, c = t[:, 0], t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    d = 2 * (b[:, 0] * c[:, 1] - b[:, 1] * c[:, 0])
    bb, cc = (b * b).sum(1), (c * c).sum(1)
    return a + np.stack([(c[:, 1] * bb - b[:, 1] * cc) / d, (b[:, 0] * cc - c[:, 0] * bb) / d], 1)


@ask("region")
class _:
    """A boundary with holes, plain, refined or limited in area."""

    @staticmethod
    def gen(rng):
        a = region(rng)
        a["opts"] = rng.choice(["p", "p", "pq", "pa", "pe"])
        a["extra"] = rng.chance(0.3)
        return a

    @staticmethod
    def make(a, hook):
        loops = [l + l[:1] if c else l for l, c in zip([a["b"], *a["h"]], a["closed"])]
        loops = [np.array(l, float) for l in loops]
        size = shoelace(a["b"]) / 12

        def go():
            d = M["prep"].prepare_args(loops[:1], loops[1:])
            if a["extra"]:
                d["vertices"] = np.vstack([d["vertices"], np.average(loops[0][:2], axis=0) * 0.2 + _middle(a) * 0.8])
            given = [np.array(d["vertices"]), np.array(d["segments"])]
            return [given, M["tri"].triangulate(d, a["opts"].replace("a", "a%.6f" % size))]

        return loops, go

    @staticmethod
    def judge(a, got, ctx):
        (gv, gs), r = got
        n = [len(a["b"]), *map(len, a["h"])]
        flat = np.array([p for l in [a["b"], *a["h"]] for p in l])
        ctx.check(same(np.asarray(gv)[:len(flat)], flat), "region:prepared", lambda: f"vertices {gv}, loops {a}")
        at, want = 0, []
        for k in n:
            want += [{at + i, at + (i + 1) % k} for i in range(k)]
            at += k
        ctx.check([set(map(int, s)) for s in gs] == want, "region:prepared", lambda: f"segments {gs}, expected {want}")
        if a["extra"] and (not inside(_last(gv), a["b"]) or any(inside(_last(gv), h) for h in a["h"]) or min(apart(_last(gv), l) for l in [a["b"], *a["h"]]) < 1e-3):
            return
        mesh_checks(ctx, "region", r["vertices"], r["triangles"], np.asarray(gv), a["b"], a["h"], [sorted(x) for x in want])
        if a["opts"] == "pa":
            size = shoelace(a["b"]) / 12
            big = float(cross(np.asarray(r["vertices"])[np.asarray(r["triangles"])]).max()) / 2
            ctx.check(big < size * 1.00001, "region:big", lambda: f"a triangle of area {big}, allowed {size}")


def _middle(a):
    return np.average(np.array(a["b"]), axis=0)


def _last(v):
    return np.asarray(v)[-1]


@ask("refused")
class _:
    """Input that has no triangulation is refused; the process lives on."""

    @staticmethod
    def gen(rng):
        p = [[round(rng.uniform(-3, 3), 3) for _ in "xy"] for _ in range(2)]
        how = rng.choice(["few", "same", "pair", "nan", "inf"])
        if how == "few":
            v = p[:rng.choice([1, 2])]
        elif how == "same":
            v = p[:1] * rng.randrange(3, 6)
        elif how == "pair":
            v = [rng.choice(p) for _ in range(4)]
        else:
            v = p + [[0.0, 0.0], [1.0, 0.5]]
        return {"v": v, "how": how, "segments": rng.chance(0.4), "fn": rng.choice(["triangulate", "delaunay", "convex_hull"])}

    @staticmethod
    def make(a, hook):
        v = np.array(a["v"], float)
        if a["how"] in ("nan", "inf"):
            v[len(v) // 2, 0] = {"nan": math.nan, "inf": math.inf}[a["how"]]

        def go():
            try:
                if a["fn"] == "triangulate":
                    d = {"vertices": v}
                    if a["segments"]:
                        d["segments"] = M["prep"].segments_by_loop(v)
                    M["tri"].triangulate(d, "p" if a["segments"] else "")
                else:
                    getattr(M["tri"], a["fn"])(v)
            except ValueError as e:
                return str(e)
            return None

        return [], go

    @staticmethod
    def judge(a, got, ctx):
        ctx.check(got is not None, "refused:accepted", lambda: f"{a['v']} was triangulated ({a['how']})")


@ask("trimmed")
class _:
    """A region of a surface inside a closed curve of its parameters."""

    @staticmethod
    def gen(rng):
        iv = [[0.0, 1.0], [0.0, 1.0]] if rng.chance(0.5) else [[round(rng.uniform(-2, 0), 1), round(rng.uniform(0.5, 3), 1)] for _ in "uv"]
        n = rng.randrange(3, 8)
        ang = rng.uniform(0, 6)
        p = []
        for i in range(n):
            f = rng.uniform(0.15, 0.45)
            p.append([iv[k][0] + (iv[k][1] - iv[k][0]) * (0.5 + f * g(ang + 2 * math.pi * i / n)) for k, g in ((0, math.cos), (1, math.sin))])
        return {"iv": iv, "p": [[round(x, 5) for x in q] for q in p], "n": rng.choice([3, 4, 6])}

    @staticmethod
    def make(a, hook):
        f = hook(lambda uv: np.array([uv[0], uv[1], uv[0] * uv[1]]))

        def build():
            p = np.array([[*q, 0.0] for q in a["p"] + a["p"][:1]])
            return M["bspline"].NURBSpline(p, 1)

        key = json.dumps(a["p"])
        c = POOL.setdefault(key, None) or build()
        POOL[key] = c

        def go():
            s = saddle(a["iv"], f)
            crv = M["surf"].CurveOnSurface(s, c, tuple(c.interval()))
            return M["tess"].tessellate_curve_on_surface(crv, u_count=a["n"], v_count=a["n"], boundary_count=len(a["p"]) * 2 + 1)

        return [c.control_points, c.knots], go

    @staticmethod
    def judge(a, got, ctx):
        v, t = np.asarray(got["vertices"]), np.asarray(got["triangles"])
        mesh_checks(ctx, "trimmed", v, t, v[:0], a["p"])
        ctx.check(float(np.abs(np.asarray(got["position"]) - np.c_[v, v[:, 0] * v[:, 1]]).max()) < 1e-9, "trimmed:position", "a vertex is not where its parameters are")
        g = [np.linspace(*iv, a["n"]) for iv in a["iv"]]
        for q in np.array([[x, y] for x in g[0] for y in g[1]]):
            if apart(q, a["p"]) > 1e-6:
                have = float(np.linalg.norm(v - q, axis=1).min()) < 1e-12
                ctx.check(have == inside(q, a["p"]), "trimmed:grid", lambda: f"grid point {q}: in the mesh {have}, inside {inside(q, a['p'])}")


def saddle(iv, f):
    class Saddle(M["surf"].Surface):
        def interval(self):
            return tuple(map(tuple, iv))

        def evaluate(self, uv):
            return f(uv)

    return Saddle()


@ask("surface")
class _:
    """A whole surface, with its triangles as a hierarchy."""

    @staticmethod
    def gen(rng):
        return {"n": [rng.randrange(3, 7), rng.randrange(3, 7)], "k": [round(rng.uniform(0.5, 3), 2) for _ in "uv"], "tree": rng.chance(0.3)}

    @staticmethod
    def make(a, hook):
        f = hook(lambda uv: np.array([uv[0] * a["k"][0], uv[1] * a["k"][1], uv[0] * uv[1]]))

        def go():
            s = saddle([[0.0, 1.0], [0.0, 1.0]], f)
            r = s.tess(*a["n"])
            if not a["tree"]:
                return r
            b = M["tess"].as_bvh(r)
            lo, hi = b.bounding_box.min_point, b.bounding_box.max_point
            return {**r, "box": np.array([lo, hi]), "polygons": M["tess"].as_polygons(r)}

        return [a["n"], a["k"]], go

    @staticmethod
    def judge(a, got, ctx):
        v, t = np.asarray(got["vertices"]), np.asarray(got["triangles"])
        mesh_checks(ctx, "surface", v, t, v[:0], [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
        w = np.c_[v[:, 0] * a["k"][0], v[:, 1] * a["k"][1], v[:, 0] * v[:, 1]]
        ctx.check(float(np.abs(np.asarray(got["position"]) - w).max()) < 1e-9, "surface:position", "a vertex is not where its parameters are")
        if "box" in got:
            ctx.check(float(np.abs(np.asarray(got["box"]) - [w.min(0), w.max(0)]).max()) < 1e-9, "surface:box", lambda: f"{got['box']}, expected {w.min(0), w.max(0)}")
            ctx.check(same(np.asarray(got["polygons"]), np.asarray(got["position"])[t]), "surface:polygons", "the triangles of the mesh differ")


KINDS = sorted(ASK)


def generate(rng, config):
    case = _asks.plan(rng, config, KINDS, lambda g, k: ASK[k].gen(g))
    case["env"] = base_env(rng)
    return case


def make(k, a, hook):
    return ASK[k].make(a, hook)


def judge(k, a, got, ctx):
    if isinstance(got, Exception):
        raise got
    ASK[k].judge(a, got, ctx)


def execute(case, ctx):
    POOL.clear()
    _asks.run(case, ctx, make, judge)
