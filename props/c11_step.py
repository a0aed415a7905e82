"""C11: STEP files written by interleaved writers, to failing streams, with interrupts and lost memory, read back."""
import io
import re

from props._curvesim import Alloc
from props._nurbs import RefCurve, RefSurface, default_knots, random_knots, random_points
from props._util import *
from sim.sched import Injected

PROP = "C11"
LEVEL = "exploration"
CONFIGS = ["one", "writers", "shared", "stream", "broken"]
PLAN = {"quick": {"seeds": 1500, "seconds": 35}, "thorough": {"seeds": 60000, "seconds": 360}}
STATES = "distinct interleavings of writers and (entities, operation, outcome) tuples"
REAL = ["mmcore.compat.step.step_writer", "mmcore.geom.nurbs", "steputils"]
STUB = ["output streams (in memory, failing on demand)"]
ASSUMPTIONS = ["names are ASCII", "a file is written while nobody adds to it"]

TOKEN = re.compile(r"\s*(?:('(?:[^']|'')*')|(#\d+)|(\.[A-Z_0-9]+\.)|([$*])|([-+]?\d[\d.]*(?:[eE][-+]?\d+)?)|([A-Z][A-Z0-9_]*)|([(),]))")


class Bad(Exception):
    pass


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Bad(f"unreadable at {text[pos:pos + 40]!r}")
        out.append(m.group().strip())
        pos = m.end()
    return out


def parse_list(toks, i):
    out = []
    i += 1
    while toks[i] != ")":
        if toks[i] == ",":
            i += 1
            continue
        v, i = parse_value(toks, i)
        out.append(v)
    return out, i + 1


def parse_value(toks, i):
    t = toks[i]
    if t == "(":
        return parse_list(toks, i)
    if t[0] == "'":
        return ("str", t[1:-1].replace("''", "'")), i + 1
    if t[0] == "#":
        return ("ref", int(t[1:])), i + 1
    if t[0] == ".":
        return ("enum", t.strip(".")), i + 1
    if t in "$*":
        return ("unset", t), i + 1
    if t[0].isalpha():
        args, j = parse_list(toks, i + 1)
        return ("typed", t, args), j
    return (float(t) if not re.fullmatch(r"[-+]?\d+", t) else int(t)), i + 1


def parse_file(text):
    """{number: [(name, args), ...]} of a STEP file."""
    head, sep, rest = text.partition("DATA;\n")
    if not sep or not text.startswith("ISO-10303-21;\n") or not text.endswith("ENDSEC;\nEND-ISO-10303-21;\n"):
        raise Bad("the frame of the file is not complete")
    for need in ("FILE_DESCRIPTION(", "FILE_NAME(", "FILE_SCHEMA("):
        if head.count(need) != 1:
            raise Bad(f"header without {need}")
    body = rest[: -len("ENDSEC;\nEND-ISO-10303-21;\n")]
    out = {}
    for line in body.splitlines():
        m = re.fullmatch(r"#(\d+)\s*=\s*(.*);", line)
        if not m:
            raise Bad(f"not an instance: {line[:80]!r}")
        n = int(m.group(1))
        if n in out:
            raise Bad(f"#{n} twice")
        toks = tokens(m.group(2))
        items, i = [], 0
        end = len(toks)
        if toks[0] == "(":
            i, end = 1, len(toks) - 1
        while i < end:
            name = toks[i]
            args, i = parse_list(toks, i + 1)
            items.append((name, args))
        out[n] = items
    return out


def refs(v):
    if isinstance(v, tuple):
        if v[0] == "ref":
            yield v[1]
        elif v[0] == "typed":
            yield from refs(v[2])
    elif isinstance(v, list):
        for x in v:
            yield from refs(x)


class Reader:
    def __init__(self, text):
        self.e = parse_file(text)
        for n, items in self.e.items():
            for _, args in items:
                for r in refs(args):
                    if r not in self.e:
                        raise Bad(f"#{n} refers to #{r}, which is not in the file")

    def get(self, n, name):
        for k, args in self.e[n]:
            if k == name:
                return args
        raise Bad(f"#{n} is {[k for k, _ in self.e[n]]}, expected {name}")

    def point(self, ref):
        return [float(x) for x in self.get(ref[1], "CARTESIAN_POINT")[1]]

    def knots(self, mult, val):
        if len(mult) != len(val):
            raise Bad(f"{len(mult)} multiplicities for {len(val)} knots")
        return [v for v, m in zip(val, mult) for _ in range(m)]

    def curve(self, n):
        kinds = [k for k, _ in self.e[n]]
        if "RATIONAL_B_SPLINE_CURVE" in kinds:
            b, k, w = self.get(n, "B_SPLINE_CURVE"), self.get(n, "B_SPLINE_CURVE_WITH_KNOTS"), self.get(n, "RATIONAL_B_SPLINE_CURVE")
            return b[0], [self.point(p) for p in b[1]], w[0], self.knots(k[0], k[1])
        a = self.get(n, "B_SPLINE_CURVE_WITH_KNOTS")
        return a[1], [self.point(p) for p in a[2]], [1.0] * len(a[2]), self.knots(a[6], a[7])

    def surface(self, n):
        kinds = [k for k, _ in self.e[n]]
        if "RATIONAL_B_SPLINE_SURFACE" in kinds:
            b, k, w = (self.get(n, x) for x in ("B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE"))
            return (b[0], b[1]), [[self.point(p) for p in r] for r in b[2]], w[0], self.knots(k[0], k[2]), self.knots(k[1], k[3])
        a = self.get(n, "B_SPLINE_SURFACE_WITH_KNOTS")
        return ((a[1], a[2]), [[self.point(p) for p in r] for r in a[3]], [[1.0] * len(r) for r in a[3]],
                self.knots(a[8], a[10]), self.knots(a[9], a[11]))

    def edge(self, n):
        """(start, end, number of the curve) of an oriented edge or an edge."""
        if any(k == "ORIENTED_EDGE" for k, _ in self.e[n]):
            n = self.get(n, "ORIENTED_EDGE")[3][1]
        a = self.get(n, "EDGE_CURVE")
        v = [self.point(self.get(r[1], "VERTEX_POINT")[1]) for r in a[1:3]]
        return v[0], v[1], a[3][1]


def heavier(rng, pts):
    """Sometimes no weight is one, or all but the last are."""
    if len(pts[0]) == 4 and rng.chance(0.4):
        w = rng.choice([[2.0], [0.5, 3.0], [1.0]])
        return [x[:3] + [w[i % len(w)] if i < len(pts) - 1 else 2.0] for i, x in enumerate(map(list, pts))]
    return pts


def gen_geom(rng):
    kind = rng.weighted([("point", 4), ("curve", 4), ("surface", 2), ("edge", 2), ("direction", 1)])
    name = rng.choice(["", "a", "it's", "part (1), #3;", "B_SPLINE"])
    if kind == "point" or kind == "direction":
        return [kind, [rng.choice([0.0, -0.0, 1e-17, 1 / 3, 1e22, -2.5, round(rng.uniform(-9, 9), 3)]) for _ in range(rng.choice([2, 3, 3]))], name]
    if kind in ("curve", "edge"):
        p = rng.randrange(1, 4)
        n = p + 1 + rng.randrange(0, 4)
        return [kind, heavier(rng, random_points(rng, n, rng.chance(0.4))), p, random_knots(rng, n, p), name, rng.randrange(2)]
    p, q = rng.randrange(1, 4), rng.randrange(1, 4)
    n, m = p + 1 + rng.randrange(0, 3), q + 1 + rng.randrange(0, 3)
    pts = heavier(rng, random_points(rng, n * m, rng.chance(0.4)))
    return [kind, [pts[i * m:(i + 1) * m] for i in range(n)], [p, q], random_knots(rng, n, p), random_knots(rng, m, q), name,
            [round(rng.random(), 2) for _ in range(3)]]


def generate(rng, config):
    many = config in ("writers", "shared")
    case = {"env": base_env(rng), "tasks": [], "shared": config == "shared"}
    for _ in range(rng.choice([2, 3]) if many else 1):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5]) if many else rng.choice([1, 3, 8])):
            op = gen_geom(rng)
            if config == "broken" and rng.chance(0.5):
                op = rng.choice([["bad", rng.choice(["point", "direction", "loop", "vertex"])], op + [{"alloc": rng.randrange(1, 8)}],
                                 op + [{"interrupt": rng.randrange(1, 120)}]])
            ops.append(op)
            if config == "stream" and rng.chance(0.5):
                ops.append(["write", rng.randrange(1, 60), rng.choice(["full", "interrupt", "short"])])
            elif not case["shared"] and rng.chance(0.25):
                ops.append(["write", 0, "ok"])
        case["tasks"].append(ops)
    if many:
        case["sched"] = pick_sched(rng)
        if rng.chance(0.25):
            case["faults"] = [{"task": rng.randrange(len(case["tasks"])), "at": rng.randrange(1, 600), "kind": "interrupt"}]
    return case


class Stream:
    """A text stream on a device that fails at the nth write."""

    def __init__(self, at, how):
        self.parts, self.at, self.how = [], at, how

    def write(self, s):
        self.at -= 1
        if self.at == 0:
            if self.how == "short":
                self.parts.append(s[: len(s) // 2])
            if self.how == "interrupt":
                raise KeyboardInterrupt("injected")
            raise OSError(28, "No space left on device")
        self.parts.append(s)
        return len(s)


def expected(op):
    """What a file must hold of an addition, from the definition of the geometry."""
    op = [x for x in op if not isinstance(x, dict)]
    if op[0] in ("curve", "edge"):
        pts = np.array(op[1], dtype=float)
        w = pts[:, 3].tolist() if pts.shape[1] == 4 else [1.0] * len(pts)
        K = op[3] if op[3] is not None else default_knots(len(pts), op[2]).tolist()
        r = RefCurve(pts, op[2], K)
        a, b = r.domain()
        return {"degree": op[2], "points": pts[:, :3].tolist(), "weights": w, "knots": list(map(float, K)),
                "ends": [r.point(a), r.point(b)], "scale": r.scale()}
    P = np.array(op[1], dtype=float)
    w = P[..., 3] if P.shape[2] == 4 else np.ones(P.shape[:2])
    U = op[3] if op[3] is not None else default_knots(P.shape[0], op[2][0]).tolist()
    V = op[4] if op[4] is not None else default_knots(P.shape[1], op[2][1]).tolist()
    H = np.concatenate([P[..., :3] * w[..., None], w[..., None]], axis=2)
    return {"degree": tuple(op[2]), "points": P[..., :3], "weights": w.tolist(), "U": list(map(float, U)), "V": list(map(float, V)),
            "ref": RefSurface(H, op[2], U, V), "scale": float(np.abs(P[..., :3]).max()) + 1}


def near(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * scale))


def match_curve(ctx, rd, n, want, where):
    d, pts, w, K = rd.curve(n)
    ctx.check(d == want["degree"], "step:degree", f"{where}: {d}, expected {want['degree']}")
    ctx.check(pts == want["points"], "step:points", lambda: f"{where}: {pts}, expected {want['points']}")
    ctx.check(w == want["weights"], "step:weights", lambda: f"{where}: {w}, expected {want['weights']}")
    ctx.check(len(K) == len(want["knots"]) and near(K, want["knots"], 1e2), "step:knots", lambda: f"{where}: {K}, expected {want['knots']}")


def examine(ctx, text, book, where):
    try:
        rd = Reader(text)
        for ref, op in book:
            op = [x for x in op if not isinstance(x, dict)]
            n = int(str(ref).lstrip("#"))
            w = f"{where}, {op[0]} {ref}"
            ctx.check(n in rd.e, "step:entity-lost", w)
            if op[0] in ("point", "direction"):
                a = rd.get(n, "CARTESIAN_POINT" if op[0] == "point" else "DIRECTION")
                ctx.check(a[0] == ("str", op[2]) and [float(x) for x in a[1]] == op[1], "step:point", lambda: f"{w}: {a}, expected {op[1:]}")
            elif op[0] in ("curve", "edge"):
                want = expected(op)
                s, e, c = rd.edge(n)
                match_curve(ctx, rd, c, want, w)
                ctx.check(near(s, want["ends"][0], want["scale"]) and near(e, want["ends"][1], want["scale"]), "step:edge-ends",
                          lambda: f"{w}: {s} {e}, expected {want['ends']}")
            else:
                want = expected(op)
                shells = rd.get(n, "SHELL_BASED_SURFACE_MODEL")
                ctx.check(shells[0] == ("str", op[5]), "step:name", f"{w}: {shells[0]}")
                face = rd.get(rd.get(shells[1][0][1], "OPEN_SHELL")[1][0][1], "ADVANCED_FACE")
                d, pts, wts, U, V = rd.surface(face[2][1])
                ctx.check(d == want["degree"], "step:degree", f"{w}: {d}")
                ctx.check(near(pts, want["points"], want["scale"]), "step:points", lambda: f"{w}: {pts}, expected {want['points'].tolist()}")
                ctx.check(wts == want["weights"], "step:weights", lambda: f"{w}: {wts}, expected {want['weights']}")
                ctx.check(len(U) == len(want["U"]) and len(V) == len(want["V"]) and near(U, want["U"], 1e2) and near(V, want["V"], 1e2),
                          "step:knots", lambda: f"{w}: {U} {V}, expected {want['U']} {want['V']}")
                loop = rd.get(rd.get(face[1][0][1], "FACE_BOUND")[1][1], "EDGE_LOOP")
                S = want["ref"]
                (a, b), (c, e) = S.domain()
                corners = [S.point(a, c), S.point(a, e), S.point(b, c), S.point(b, e)]
                sides = []
                for r in loop[1]:
                    p, q, _ = rd.edge(r[1])
                    i = [k for k in range(4) if near(p, corners[k], want["scale"])]
                    j = [k for k in range(4) if near(q, corners[k], want["scale"])]
                    ctx.check(i and j, "step:boundary-ends", lambda: f"{w}: an edge from {p} to {q}, corners {corners}")
                    sides.append(tuple(sorted((i[0], j[0]))))
                ctx.check(sorted(sides) == [(0, 1), (0, 2), (1, 3), (2, 3)], "step:boundary", f"{w}: edges between corners {sides}")
                styles = [v for v in rd.e.values() if v[0][0] == "STYLED_ITEM" and v[0][1][2] == ("ref", n)]
                ctx.check(len(styles) == 1, "step:style", f"{w}: {len(styles)} styles")
                m = styles[0][0][1][1][0][1]
                for k, pick in (("PRESENTATION_STYLE_ASSIGNMENT", lambda x: x[0][0][1]), ("SURFACE_STYLE_USAGE", lambda x: x[1][1]),
                                ("SURFACE_SIDE_STYLE", lambda x: x[1][0][1]), ("SURFACE_STYLE_FILL_AREA", lambda x: x[0][1]),
                                ("FILL_AREA_STYLE", lambda x: x[1][0][1]), ("FILL_AREA_STYLE_COLOUR", lambda x: x[1][1])):
                    m = pick(rd.get(m, k))
                ctx.check(rd.get(m, "COLOUR_RGB")[1:] == op[6], "step:colour", f"{w}: {rd.get(m, 'COLOUR_RGB')}, expected {op[6]}")
    except Bad as e:
        ctx.check(False, "step:file-broken", f"{where}: {e}")
    return rd


def add(w, op, made):
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface

    k = op[0]
    if k == "point":
        return w.add_cartesian_point(op[1], op[2])
    if k == "direction":
        return w.add_direction(tuple(op[1]), op[2])
    if k == "curve":
        return w.add_nurbs_curve(made)
    if k == "edge":
        c = w.add_b_spline_curve_with_knots(made, op[4])
        ends = [tuple(made.start()), tuple(made.end())]
        if op[5]:
            ends = [w.add_vertex_point(w.add_cartesian_point(e)) for e in ends]
        return w.add_edge_curve(ends[0], ends[1], c, True)
    return w.add_nurbs_surface(made, tuple(op[6]), op[5])


def build(op):
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface

    if op[0] in ("curve", "edge"):
        pts = np.array(op[1], dtype=float)
        return NURBSCurve(pts, op[2], None if op[3] is None else np.array(op[3], dtype=float))
    if op[0] == "surface":
        P = np.array(op[1], dtype=float)
        if P.shape[2] == 4:
            P = np.concatenate([P[..., :3] * P[..., 3:], P[..., 3:]], axis=2)
        K = {}
        return NURBSSurface(P, tuple(op[2]), *[None if k is None else np.array(k, dtype=float) for k in op[3:5]])
    return None


def state_of(g):
    if g is None:
        return None
    if hasattr(g, "knots_u"):
        return np.array(g.control_points_w), np.array(g.knots_u), np.array(g.knots_v), tuple(g.degree)
    return np.array(g.control_pointsw), np.array(g.knots), int(g.degree)


def execute(case, ctx):
    from mmcore.compat.step.step_writer import StepWriter
    from sim import sched

    alloc = Alloc()
    shared = StepWriter() if case["shared"] else None
    made = [[build(op) if op[0] not in ("write", "bad") else None for op in ops] for ops in case["tasks"]]
    before = [[state_of(g) for g in row] for row in made]

    def work(i):
        w = shared or StepWriter()
        book, texts, clean = [], [], True
        for j, op in enumerate(case["tasks"][i]):
            if op[0] == "write":
                if shared:
                    continue
                s = Stream(op[1] if op[2] != "ok" else -1, op[2])
                try:
                    w.write(s)
                    texts.append(("".join(s.parts), len(book)))
                except (OSError, KeyboardInterrupt) as e:
                    if op[2] == "ok" or "injected" not in str(e) and not isinstance(e, OSError):
                        raise
                    ctx.fault("stream_" + op[2])
                    continue
                ctx.check(s.at != 0 and (op[2] == "ok" or s.at > 0), "step:failed-write-silent", f"writer {i} returned from a write that failed")
                continue
            if op[0] == "bad":
                try:
                    if op[1] == "point":
                        w.add_cartesian_point((1.0, 2.0, 3.0, 4.0))
                    elif op[1] == "direction":
                        w.add_direction((1.0,))
                    elif op[1] == "loop":
                        w.add_edge_loop([w.add_cartesian_point((0.0, 1.0, 2.0))])
                    else:
                        w.add_vertex_point(w.add_direction((0.0, 0.0, 1.0)))
                except ValueError:
                    ctx.count("refused")
                    clean = clean and op[1] in ("point", "direction")
                    continue
                ctx.check(False, "step:bad-accepted", op[1])
            fault = op[-1] if isinstance(op[-1], dict) else {}
            try:
                if "alloc" in fault:
                    with alloc.fail_at(fault["alloc"]):
                        ref = add(w, op, made[i][j])
                elif "interrupt" in fault:
                    ref, err, _, _ = sched.run_single(ctx, lambda: add(w, op, made[i][j]), [{"task": 0, "at": fault["interrupt"], "kind": "interrupt"}])
                    if err is not None:
                        raise err
                else:
                    ref = add(w, op, made[i][j])
            except (MemoryError, KeyboardInterrupt) as e:
                if "injected" not in str(e) or not fault:
                    raise
                ctx.fault("no_memory" if isinstance(e, MemoryError) else "interrupt")
                clean = False
                continue
            book.append((ref, op))
        return w, book, texts, clean

    faults = [f for f in case.get("faults", []) if f["task"] < len(case["tasks"])]
    if "sched" in case:
        tasks = run_tasks(case, ctx, [lambda i=i: work(i) for i in range(len(case["tasks"]))], faults)
        for i, t in enumerate(tasks):
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None and not (isinstance(t.error, KeyboardInterrupt) and any(f["task"] == i for f in faults)):
                ctx.check(False, f"step:raises-{type(t.error).__name__}", f"writer {i}: {t.error!r}")
        outs = [t.result for t in tasks]
    else:
        outs = [work(0)]
    everything = [x for o in outs if o for x in o[1]]
    if shared:
        numbers = [str(r) for r, _ in everything]
        ctx.check(len(set(numbers)) == len(numbers), "step:reference-twice", lambda: str(sorted(numbers)))
    for i, o in enumerate(outs):
        if o is None:
            continue
        w, book, texts, clean = o
        final = []
        for _ in range(2):
            f = io.StringIO()
            w.write(f)
            final.append(f.getvalue())
        ctx.check(final[0] == final[1], "step:second-write-differs", f"writer {i}")
        examine(ctx, final[0], everything if shared else book, f"writer {i}")
        for text, n in texts:
            examine(ctx, text, book[:n], f"writer {i}, file after {n} additions")
        if clean and not shared:  # the same additions to a writer of its own give the same bytes
            lone = StepWriter()
            for (ref, op) in book:
                again = add(lone, op, build([x for x in op if not isinstance(x, dict)]))
                ctx.check(str(again) == str(ref), "step:reference-differs", f"writer {i}: {ref} and {again}")
            f = io.StringIO()
            lone.write(f)
            ctx.check(f.getvalue() == final[0], "step:depends-on-others", f"writer {i} does not write what a writer alone writes")
        ctx.event("file", i, len(final[0]), final[0])
        ctx.state(len(book), clean, len(texts), case["shared"])
    for row, olds in zip(made, before):
        for g, old in zip(row, olds):
            ctx.check(same(state_of(g), old), "step:input-changed", "a curve or surface was changed by writing it")
