"""C28: boundary models hold each thing once; booleans of closed curves keep exactly the right parts."""
import math

from props import _asks
from props._asks import plan, run
from props._util import *

PROP = "C28"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 1600, "seconds": 45, "timeout": 60}, "thorough": {"seeds": 60000, "seconds": 400, "timeout": 60}}
STATES = "distinct (question, shape of the answer, outcome) tuples"
REAL = ["mmcore.topo.brep", "mmcore.geom.curves.curve_bool", "mmcore.numeric.intersection.ccx", "mmcore.geom.nurbs", "mmcore.numeric.closest_point"]
STUB = ["numpy's array makers: one of them refuses memory"]
ASSUMPTIONS = ["points a model tells apart differ by more than its rounding (8 digits)", "curves and surfaces in a model are the caller's own objects: he may "
               "go on editing them", "edge parameters are asked of straight edges", "closed curves cross clearly; what lies within 0.06 of the other curve "
               "(the intersection's own accuracy) may fall on either side"]
KINDS = ["model", "model", "model", "boolean", "boolean", "sheet", "sparse", "edge"]
NEAR = 0.06


# ---------------------------------------------------------------- the questions

def coord(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.25, 2.0])


def star(rng, n, c, r):
    off = rng.uniform(0, 1)
    out = []
    for i in range(n):
        t = 2 * math.pi * (i + off + rng.uniform(-0.25, 0.25)) / n
        R = r * rng.uniform(0.6, 1.2)
        out.append([round(c[0] + R * math.cos(t), 4), round(c[1] + R * math.sin(t), 4), 0.0])
    return out + [out[0]]


def gen(rng, k):
    if k == "model":
        ops = []
        for _ in range(rng.choice([10, 20, 40])):
            f = rng.weighted([("point", 25), ("vertex", 15), ("curve", 12), ("edge", 20), ("surface", 5), ("loop", 8), ("face", 10), ("shell", 4), ("solid", 3), ("editcurve", 3),
                              ("scribble", 6), ("other", 2)])
            ops.append([f, [rng.randrange(64) for _ in range(6)], [coord(rng) for _ in range(3)], rng.randrange(6), rng.chance(0.75)])
        return {"ops": ops}
    if k == "boolean":
        s = rng.choice([1.0, 1.0, 0.5])
        if rng.chance(0.25):
            # rectangles along the axes, at the same heights, crossing squarely
            f = rng.uniform(0.4, 1.0)
            box = lambda xs, ys: [[round(f * x, 4), round(f * y, 4), 0.0] for x, y in ((xs[0], ys[0]), (xs[1], ys[0]), (xs[1], ys[1]), (xs[0], ys[1]), (xs[0], ys[0]))]
            xs, ys = [rng.choice([[-1, 1], [1, 3], [-1, 3]]) for _ in "xy"]
            far = rng.weighted([("", 5), ("x", 3), ("y", 2)])
            if far == "x":
                xs, ys = rng.choice([[5, 7], [-7, -5]]), rng.choice([ys, [0, 2], [0, 3]])
            elif far == "y":
                xs, ys = rng.choice([xs, [0, 2], [0, 3]]), rng.choice([[5, 7], [-7, -5]])
            pair = [box([0, 2], [0, 2]), box(xs, ys)]
            if rng.chance(0.4):
                pair.reverse()
            return {"a": pair[0], "da": 1, "b": pair[1], "db": 1, "op": rng.randrange(3)}
        return {"a": star(rng, rng.randrange(4, 8), [0.0, 0.0], 1.0), "da": rng.choice([1, 1, 2, 3]),
                "b": star(rng, rng.randrange(4, 8), [s * rng.uniform(-2.2, 2.2), s * rng.uniform(-2.2, 2.2)], rng.choice([0.15, 0.3, 0.6, 1.0, 1.5])), "db": rng.choice([1, 1, 2, 3]),
                "op": rng.randrange(3)}
    if k == "sheet":
        p, q = rng.randrange(1, 4), rng.randrange(1, 4)
        n, m = p + 1 + rng.randrange(0, 3), q + 1 + rng.randrange(0, 3)
        P = [[[round(i + rng.uniform(-0.3, 0.3), 3), round(j + rng.uniform(-0.3, 0.3), 3), round(rng.uniform(-1, 1), 3)] for j in range(m)] for i in range(n)]
        if rng.chance(0.3):
            P[-1] = [list(x) for x in P[0]]  # closed: two corners fall together
        return {"P": P, "d": [p, q]}
    if k == "sparse":
        return {"ops": [[rng.randrange(5), rng.randrange(5), rng.randrange(100)] for _ in range(rng.choice([1, 5, 12]))]}
    n = rng.randrange(2, 5)
    return {"a": [round(rng.uniform(-3, 3), 3) for _ in range(3)], "b": [round(rng.uniform(-3, 3), 3) + 8 for _ in range(3)], "s": sorted(round(rng.uniform(0.1, 0.9), 2) for _ in range(2)),
            "rev": rng.chance(0.3), "whole": rng.chance(0.4), "move": [coord(rng) for _ in range(3)]}


def generate(rng, config):
    case = plan(rng, config, KINDS, gen)
    case["env"] = base_env(rng)
    return case


# ---------------------------------------------------------------- asking

def setup():
    import mmcore.geom.curves.curve_bool  # noqa: F401
    import mmcore.topo.brep  # noqa: F401


def form(x, how):
    """The same point in one of the ways callers write points."""
    if how == 1:
        return tuple(x)
    if how == 2:
        return list(x)
    if how == 3 and all(float(c).is_integer() for c in x):
        return np.array([int(c) for c in x])
    if how == 4:
        return np.array([-0.0 if c == 0 else c for c in x])
    if how == 5:
        return np.array([c + s for c, s in zip(x, (1e-10, -1e-10, 2e-10))])
    return np.array(x)


def model(a):
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
    from mmcore.topo import brep

    m = brep.BRep()
    g = m.geometry
    pool = [NURBSCurve(np.array([[0.0, 0, i], [1, 1, i], [2, 0, i + 1.0]]), 2) for i in range(4)]
    sheets = [NURBSSurface(np.array([[[0.0, 0, i], [0, 1, i]], [[1, 0, i], [1, 1, i + 1.0]]]), (1, 1)) for i in range(2)]
    given = []
    log = []

    def index(x, xs):
        return [i for i, y in enumerate(xs) if y is x]

    for f, ix, xyz, how, check in a["ops"]:
        line = [f]
        unsaid = () if check and sum(ix) % 2 else (check,)  # looking for the same thing is what happens unasked
        if f == "point":
            p = form(xyz, how)
            r = g.add_point(p, *unsaid) if ix[0] % 2 else g.add(p, check=check) if unsaid else g.add(p)
            if isinstance(p, np.ndarray) and p.dtype == float:
                given.append((p, p.copy()))
            line += [xyz, check, index(r, g.points), r.index]
        elif f == "scribble":
            if not given:
                continue
            p, _ = given[ix[0] % len(given)]
            p += 17.25
            line += []
        elif f == "editcurve":
            c = pool[ix[0] % len(pool)]
            q = np.array(c.control_points)
            q[1, 1] += 1.0 + ix[1] % 3
            c.control_points = q
            line += []
        elif f == "curve":
            i = ix[0] % len(pool)
            c = pool[i] if how < 3 else pool[i].copy()
            r = g.add_curve(c, *unsaid) if ix[1] % 2 else g.add(c, check=check)
            line += [content(c), check, index(r, g.curves), r.index]
        elif f == "surface":
            i = ix[0] % len(sheets)
            c = sheets[i] if how < 3 else sheets[i].copy()
            r = g.add_surface(c, *unsaid)
            line += [i, check, index(r, g.surfaces), r.index]
        elif f == "vertex":
            if not g.points:
                continue
            i = ix[0] % len(g.points)
            v = m.add_vertex(g.points[i], *unsaid)
            line += [i, check, index(v, m.vertices), index(v.represented_by, g.points)]
        elif f == "edge":
            if not m.vertices or not g.curves:
                continue
            i, s, e = ix[0] % len(g.curves), ix[1] % len(m.vertices), ix[2] % len(m.vertices)
            if ix[3] % 4 == 0:
                e = s
            x = m.add_edge(g.curves[i], m.vertices[s], m.vertices[e], *unsaid)
            line += [i, s, e, check, index(x, m.edges), index(x.represented_by, g.curves), [index(v, m.vertices) for v in x.bounded_by], [content(r.value) for r in g.curves]]
        elif f == "loop":
            if not m.edges:
                continue
            es = [i % len(m.edges) for i in ix[: 1 + how % 4]]
            x = m.add_loop([m.edges[i] for i in es])
            line += [es, index(x, m.loops), [index(e, m.edges) for e in x.edges]]
        elif f == "face":
            if not g.surfaces:
                continue
            ls = [i % len(m.loops) for i in ix[1: 1 + how % 4]] if m.loops else []
            i = ix[0] % len(g.surfaces)
            x = m.add_face(g.surfaces[i], [m.loops[j] for j in ls], *unsaid)
            line += [i, ls, check, index(x, m.faces), index(x.represented_by, g.surfaces), [index(y, m.loops) for y in x.bounded_by]]
        elif f == "shell":
            if not m.faces:
                continue
            fs = [i % len(m.faces) for i in ix[: 1 + how % 3]]
            x = m.add_shell([m.faces[i] for i in fs], check=False)
            line += [fs, index(x, m.shells), [index(y, m.faces) for y in x.faces]]
        elif f == "solid":
            if not m.shells:
                continue
            fs = [i % len(m.shells) for i in ix[: 1 + how % 3]]
            x = m.add_solid([m.shells[i] for i in fs], check=False)
            line += [fs, index(x, m.solids), [index(y, m.shells) for y in x.bounded_by]]
        else:
            o = brep.BRep()
            line += [[len(getattr(o, n)) for n in ("solids", "shells", "faces", "loops", "edges", "vertices")] + [len(o.geometry.points), len(o.geometry.curves), len(o.geometry.surfaces)]]
            o.geometry.add_point((1.0, 2.0, 3.0))
            o.add_vertex(o.geometry.points[0])
        line.append([len(x) for x in (g.points, g.curves, g.surfaces, m.vertices, m.edges, m.loops, m.faces, m.shells, m.solids)])
        log.append(line)
    return log, [[float(x) for x in p.value] for p in g.points], [p.index for p in g.points], [c.index for c in g.curves], [s.index for s in g.surfaces]


def content(c):
    return np.array(c.control_points).tolist()


def make(k, a, hook):
    from mmcore.geom.curves.curve_bool import curve_boolean_operation
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
    from mmcore.topo import brep

    if k == "model":
        return {}, lambda: model(a)
    if k == "boolean":
        x, y = NURBSCurve(np.array(a["a"]), a["da"]), NURBSCurve(np.array(a["b"]), a["db"])
        state = lambda: [[np.array(c.control_points), np.array(c.knots)] for c in (x, y)]

        def boolean():
            was = state()
            out = []
            segs = curve_boolean_operation(x, y, a["op"])
            for s in segs:
                t = np.linspace(*s.interval(), 60)
                out.append([t, np.array(s.evaluate_multi(t))])
            for s in segs:
                s.control_points = np.array(s.control_points) + 1.0
            now = state()
            return out, all(np.array_equal(p, q) for c, d in zip(was, now) for p, q in zip(c, d))
        return {}, boolean
    if k == "sheet":
        s = NURBSSurface(np.array(a["P"]), tuple(a["d"]))

        def sheet():
            shell, g = brep.nurbs_surf_to_brep(s)
            loop = shell.faces[0].bounded_by[0]
            return ([list(map(float, p)) for p in g.points], [[e.represented_by, [v.represented_by for v in e.bounded_by]] for e in loop.edges],
                    [[np.array(c.evaluate_multi(np.linspace(*c.interval(), 5))) for c in g.curves], [x is s for x in g.surfaces]], [len(shell.faces), len(shell.faces[0].bounded_by), shell.faces[0].represented_by])
        return {}, sheet
    if k == "sparse":
        def sparse():
            m = brep.Sparce()
            for i, j, v in a["ops"]:
                m[i, j] = v
            n = range(5)
            return [[m.get((i, j)) for j in n] for i in n], [sorted(map(list, m[i].items())) for i in n], [m[i, j] for i, j, _ in a["ops"]]
        return {}, sparse
    P, Q = np.array(a["a"]), np.array(a["b"])

    def edge():
        c = NURBSCurve(np.array([P, Q]), 1)
        m = brep.BRep()
        s, e = (0.0, 1.0) if a["whole"] else a["s"]
        if a["rev"]:
            s, e = e, s
        v = [m.add_vertex(m.geometry.add_point(P + (Q - P) * t)) for t in (s, e)]
        x = m.add_edge(m.geometry.add_curve(c), *v)
        got = [[float(np.ravel(t)[0]) for t in x.get_ends_parameters(check=True)], np.array(x.tessellate())]
        c.control_points = np.array(c.control_points)[::-1].copy()
        return got + [[float(np.ravel(t)[0]) for t in x.get_ends_parameters()], np.array(brep.Loop([x, x]).tessellate())]
    return {"P": P, "Q": Q}, edge


# ---------------------------------------------------------------- judging

def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def judge_model(a, r, ctx):
    points, curves, surfaces = [], [], []  # contents at the time of adding
    vertices, edges, loops, faces, shells, solids = [], [], [], [], [], []
    log, kept, *numbers = r
    for line in log:
        f, *rest = line
        n = rest.pop()
        if f == "point":
            xyz, check, at, ix = rest
            want = points.index(xyz) if check and xyz in points else len(points)
            if want == len(points):
                points.append(xyz)
            ctx.check(at == [want] and ix == want, "model:point", lambda: f"point {xyz} (check {check}) is entry {at}, numbered {ix}, not {want} of {points}")
        elif f == "curve":
            c, check, at, ix = rest
            # entries hold the caller's objects: only those never edited are judged for being found again
            same = [i for i, y in enumerate(curves) if y == c]
            if check and same and at != [len(curves)]:
                ctx.check(len(at) == 1 and (at[0] in same or edited(log, line)) and ix == at[0], "model:curve", lambda: f"curve found at {at}, numbered {ix}; equal ones at {same}")
            elif check and same and not edited(log, line):
                ctx.check(False, "model:curve-twice", lambda: f"a curve equal to entry {same} was entered again at {at}")
            else:
                if at == [len(curves)]:
                    curves.append(c)
                    ctx.check(ix == at[0], "model:curve-index", lambda: f"entry {at} is numbered {ix}")
                else:
                    ctx.check(check and edited(log, line) and len(at) == 1 and ix == at[0], "model:curve", lambda: f"a new curve is entry {at}, numbered {ix}, of {len(curves)}")
        elif f == "surface":
            c, check, at, ix = rest
            want = surfaces.index(c) if check and c in surfaces else len(surfaces)
            if want == len(surfaces):
                surfaces.append(c)
            ctx.check(at == [want] and ix == want, "model:surface", lambda: f"surface {c} is entry {at}, numbered {ix}, not {want}")
        elif f == "vertex":
            i, check, at, rep = rest
            same = [j for j, v in enumerate(vertices) if points[v] == points[i]]
            want = same[0] if check and same else len(vertices)
            if want == len(vertices):
                vertices.append(i)
            ctx.check(at == [want] and rep == [vertices[want]], "model:vertex", lambda: f"vertex of point {i} is {at} with point {rep}, not {want}")
        elif f == "edge":
            i, s, e, check, at, rep, ends, now = rest
            P = lambda v: points[vertices[v]]
            same = [j for j, (c, x, y) in enumerate(edges) if now[c] == now[i] and [P(s), P(e)] in ([P(x), P(y)], [P(y), P(x)])]
            want = same[0] if check and same else len(edges)
            if want == len(edges):
                edges.append((i, s, e))
            c, x, y = edges[want]
            ctx.check(at == [want] and rep == [c] and ends == [[x], [y]], "model:edge", lambda: f"edge {(i, s, e)} (check {check}) is {at} with {rep}, {ends}; want {want} of {edges}")
        elif f == "loop":
            es, at, held = rest
            loops.append(es)
            ctx.check(at == [len(loops) - 1] and held == [[i] for i in es], "model:loop", lambda: f"loop {es} is {at} with {held}")
        elif f == "face":
            i, ls, check, at, rep, held = rest
            same = [j for j, (s, x) in enumerate(faces) if surfaces[s] == surfaces[i] and x[:1] == ls[:1] and sorted(x[1:]) == sorted(ls[1:])]
            want = same[0] if check and same else len(faces)
            if want == len(faces):
                faces.append((i, ls))
            s, x = faces[want]
            ctx.check(at == [want] and rep == [s] and held == [[j] for j in x], "model:face", lambda: f"face {(i, ls)} (check {check}) is {at} with {rep}, {held}; want {want} of {faces}")
        elif f in ("shell", "solid"):
            fs, at, held = rest
            xs = shells if f == "shell" else solids
            xs.append(fs)
            ctx.check(at == [len(xs) - 1] and held == [[j] for j in fs], "model:" + f, lambda: f"{fs} is {at} with {held}")
        elif f == "other":
            ctx.check(not any(rest[0]), "model:other", lambda: f"a new model already holds {rest[0]}")
        want = [len(x) for x in (points, curves, surfaces, vertices, edges, loops, faces, shells, solids)]
        ctx.check(n == want, "model:sizes", lambda: f"after {line[:2]}: {n}, not {want}")
    ctx.check(near(kept, points, 1e-8) if points else kept == [], "model:points-kept", lambda: f"{kept}, not {points}")
    ctx.check(all(x == list(range(len(x))) for x in numbers), "model:numbers", lambda: f"{numbers}")


def edited(log, line):
    for x in log:
        if x is line:
            return False
        if x[0] == "editcurve":
            return True


def ring(P, d):
    """Points along the closed curve, by the basis recursion in numpy."""
    P = np.array(P)
    n = len(P)
    U = [0.0] * (d + 1) + [float(i) for i in range(1, n - d)] + [float(n - d)] * (d + 1)
    t = np.linspace(0, n - d, 400 * (n - d) + 1)
    s = np.minimum(np.floor(t), n - d - 1)
    B = [((s == u) & (U[i] < U[i + 1])).astype(float) for i, u in enumerate(U[:-1])]
    for q in range(1, d + 1):
        C = []
        for i in range(len(U) - q - 1):
            x, y = U[i + q] - U[i], U[i + q + 1] - U[i + 1]
            C.append(((t - U[i]) / x * B[i] if x else 0.0) + ((U[i + q + 1] - t) / y * B[i + 1] if y else 0.0))
        B = C
    return t, np.stack(B, axis=1) @ P


def within(R, p):
    """Whether each of the points lies inside the closed line R, by crossings of a ray."""
    x, y = p[:, 0:1], p[:, 1:2]
    x0, y0, x1, y1 = R[:-1, 0], R[:-1, 1], R[1:, 0], R[1:, 1]
    up = (y0 > y) != (y1 > y)
    with np.errstate(all="ignore"):
        return np.sum(up & (x < x0 + (y - y0) * (x1 - x0) / (y1 - y0)), axis=1) % 2 == 1


def away(R, p):
    a, b = R[:-1, :2], R[1:, :2]
    d = b - a
    l = np.maximum(np.sum(d * d, axis=1), 1e-300)
    t = np.clip(np.sum((p[:, None, :2] - a) * d, axis=2) / l, 0, 1)
    return np.min(np.linalg.norm(p[:, None, :2] - a - t[..., None] * d, axis=2), axis=1)


def judge(k, a, r, ctx):
    from sim.core import exception_violation

    if isinstance(r, BaseException):
        raise exception_violation(r)
    if k == "model":
        judge_model(a, r, ctx)
    elif k == "boolean":
        segs, alone = r
        ctx.check(alone, "boolean:shares", "editing the parts edits the curves they were cut from")
        (ta, A), (tb, B) = ring(a["a"], a["da"]), ring(a["b"], a["db"])
        took = {0: [], 1: []}
        for t, p in segs:
            on = [i for i, (tt, R) in enumerate(((ta, A), (tb, B))) if t[0] >= -1e-9 and t[-1] <= tt[-1] + 1e-9 and
                  np.max(np.abs(p - np.stack([np.interp(t, tt, R[:, j]) for j in range(3)], axis=1))) < 1e-3]
            ctx.check(len(on) == 1, "boolean:part", lambda: f"a part {t[0]}..{t[-1]} from {p[0]} to {p[-1]} is not a piece of either curve")
            if len(on) == 1:
                took[on[0]].append((float(t[0]), float(t[-1])))
        op = a["op"]
        for i, (tt, R, O, keep) in enumerate(((ta, A, B, op == 1), (tb, B, A, op in (1, 2)))):
            q, tq = R[5::10], tt[5::10]
            clear = away(O, q) > NEAR
            want = within(O, q) == keep
            got = np.zeros(len(tq), int)
            for s, e in took[i]:
                got += (tq >= s) & (tq <= e)
            for bad, sig in ((clear & want & (got == 0), "lost"), (clear & ~want & (got > 0), "kept"), (clear & want & (got > 1), "twice")):
                ctx.check(not bad.any(), f"boolean:{sig}", lambda: f"operation {op}: part of curve {i} at {tq[bad][:3]} ({q[bad][0]}) is {sig}; pieces {took[i]}")
    elif k == "sheet":
        pts, edges, (curves, own), shape = r
        P = np.array(a["P"])
        corners = [P[i][j].tolist() for i, j in ((0, 0), (0, -1), (-1, 0), (-1, -1))]
        sides = [(corners[0], corners[1]), (corners[2], corners[3]), (corners[0], corners[2]), (corners[1], corners[3])]
        want = []
        for c in corners:
            if c not in want:
                want.append(c)
        ctx.check(len(pts) == len(want) and all(any(near(p, c, 1e-9) for p in pts) for c in want), "sheet:corners", lambda: f"{pts}, not {want}")
        ctx.check(shape == [1, 1, 0] and own == [True] and [e[0] for e in edges] == [0, 1, 2, 3] and len(curves) == 4, "sheet:shape", lambda: f"{shape}, {own}, {edges}")
        for (i, (s, e)), c, ends in zip(edges, curves, sides):
            ctx.check(near([pts[s], pts[e]], [c[0], c[-1]], 1e-9) and near([c[0], c[-1]], ends, 1e-9), "sheet:edge", lambda: f"edge {i} runs {pts[s]}..{pts[e]}, its curve {c[0]}..{c[-1]}, the side {ends}")
    elif k == "sparse":
        m = {}
        for i, j, v in a["ops"]:
            m[i, j] = m[j, i] = v
        keys = sorted({i for ij in m for i in ij})
        ctx.check(r[0] == [[m.get((i, j)) for j in range(5)] for i in range(5)], "sparse:cells", lambda: f"{r[0]}")
        ctx.check(r[1] == [[[j, m.get((i, j))] for j in keys] for i in range(5)], "sparse:rows", lambda: f"{r[1]}")
        ctx.check(r[2] == [m[i, j] for i, j, _ in a["ops"]], "sparse:asked", lambda: f"{r[2]}")
    else:
        P, Q = np.array(a["a"]), np.array(a["b"])
        s, e = (0.0, 1.0) if a["whole"] else a["s"]
        if a["rev"]:
            s, e = e, s
        line = P + (Q - P) * np.linspace(s, e, 100)[:, None]
        ctx.check(near(r[0], [s, e], 1e-4), "edge:parameters", lambda: f"{r[0]}, not {(s, e)}")
        ctx.check(near(r[1], line, 1e-4), "edge:line", lambda: f"{r[1][0]}..{r[1][-1]}, not {line[0]}..{line[-1]}")
        ctx.check(near(r[2], [1 - s, 1 - e], 1e-4), "edge:turned", lambda: f"the curve now runs the other way: {r[2]}, not {(1 - s, 1 - e)}")
        ctx.check(near(r[3], np.concatenate([line, line]), 1e-4), "edge:loop", lambda: f"{r[3].shape}")


def execute(case, ctx):
    run(case, ctx, make, judge)
