"""C08: sweep-line intersection of segments against exact rational arithmetic, with several sweeps interleaved."""
from fractions import Fraction as F

from props._util import *
from sim import sched

PROP = "C08"
LEVEL = "exploration"
CONFIGS = ["alone", "alone", "concurrent", "concurrent", "interrupted"]
PLAN = {"quick": {"seeds": 2000, "seconds": 35}, "thorough": {"seeds": 150000, "seconds": 420}}
STATES = "distinct interleavings of concurrent sweeps, and (segments, kind, degeneracy) tuples"
REAL = ["mmcore.numeric.algorithms.sweep_line"]
STUB = ["coin flips of the skip lists (seeded)"]
ASSUMPTIONS = ["segments do not overlap along a line", "event points are further apart than the library's tolerance"]


def crossing(a, b):
    """(t on a, u on b, point) of the crossing of two segments, or None; None too for parallel ones."""
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = *a, *b
    d = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3)
    if d == 0:
        return None
    t = ((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3)) / d
    u = ((x3 - x1) * (y2 - y1) - (y3 - y1) * (x2 - x1)) / d
    if 0 <= t <= 1 and 0 <= u <= 1:
        return t, u, (x1 + t * (x2 - x1), y1 + t * (y2 - y1))
    return None


def exact(seg):
    return tuple((F(p[0]), F(p[1])) for p in seg)


def overlap(a, b):
    (x1, y1), (x2, y2), p, q = *a, *b
    if (x2 - x1) * (q[1] - p[1]) != (y2 - y1) * (q[0] - p[0]):
        return False
    if (x2 - x1) * (p[1] - y1) != (y2 - y1) * (p[0] - x1):
        return False
    f = lambda r: (r[0] - x1) * (x2 - x1) + (r[1] - y1) * (y2 - y1)
    lo, hi = sorted((f(p), f(q)))
    return lo < f((x2, y2)) and hi > 0


def oracle(segs):
    """{segment: crossing points strictly inside it, in order}, or None when the input is outside the contract."""
    ex = [exact(s) for s in segs]
    pts = {p for s in ex for p in s}
    inner = {i: {} for i in range(len(segs))}
    for i in range(len(ex)):
        for j in range(i):
            if overlap(ex[i], ex[j]):
                return None
            q = crossing(ex[i], ex[j])
            if q is None:
                continue
            pts.add(q[2])
            if 0 < q[0] < 1:
                inner[i][q[0]] = q[2]
            if 0 < q[1] < 1:
                inner[j][q[1]] = q[2]
    pts = sorted(pts)
    for i, p in enumerate(pts):  # distinct events closer together than the tolerance are outside the contract
        for q in pts[i + 1:]:
            if q[0] - p[0] > F(1, 10**7):
                break
            if abs(q[1] - p[1]) < F(1, 10**7):
                return None
            if q[0] != p[0]:
                return None
    out = {}
    for i, s in enumerate(segs):
        if inner[i]:
            out[s] = [(float(inner[i][t][0]), float(inner[i][t][1])) for t in sorted(inner[i])]
    return out


def make(rng):
    kind = rng.weighted([("grid", 4), ("float", 3), ("star", 1), ("lattice", 1), ("chain", 2), ("comb", 1)])
    n = rng.choice([2, 3, 5, 8, 12, 20])
    scale = rng.choice([1.0, 1.0, 100.0, 0.01]) if kind == "float" else 1
    segs = []
    R = rng.choice([4, 8, 20, 40])
    for i in range(n):
        if kind == "grid":
            s = [[rng.randrange(-R, R + 1), rng.randrange(-R, R + 1)] for _ in range(2)]
        elif kind == "float":
            s = [[rng.uniform(-10, 10) * scale, rng.uniform(-10, 10) * scale] for _ in range(2)]
        elif kind == "star":  # many segments through one point
            dx, dy = rng.randrange(-R, R + 1), rng.randrange(-R, R + 1)
            s = [[3 - dx, 2 - dy], [3 + dx, 2 + dy]]
        elif kind == "lattice":
            k = rng.randrange(R)
            s = [[k, -1], [k, R]] if rng.chance(0.5) else [[-1, k], [R, k]]
        elif kind == "comb":  # segments that start or end on one long segment
            s = [[0, 0], [R, 0]] if i == 0 else [[rng.randrange(R), 0], [rng.randrange(R), rng.randrange(-5, 6)]]
        else:
            s = [list(segs[-1][1]) if segs else [0, 0], [rng.randrange(-R, R + 1), rng.randrange(-R, R + 1)]]
        if rng.chance(0.3):
            s.reverse()
        if s[0] == s[1] or s in segs or s[::-1] in segs:
            continue
        if any(overlap(exact(s), exact(o)) for o in segs):
            continue
        segs.append(s)
    return {"kind": kind, "segs": segs}


def generate(rng, config):
    tasks = 1 if config == "alone" else rng.choice([2, 2, 3])
    case = {"env": base_env(rng), "tasks": [make(rng) for _ in range(tasks)], "form": rng.choice(["tuple", "list", "array"])}
    if config != "alone":
        case["sched"] = pick_sched(rng)
    if config == "interrupted":
        case["faults"] = [{"task": rng.randrange(tasks), "at": rng.randrange(1, 1500), "kind": rng.choice(["interrupt", "nomem"])}]
    return case


def present(segs, form):
    t = tuple(tuple(tuple(p) for p in s) for s in segs)
    if form == "tuple":
        return t
    if form == "list":
        return [[list(p) for p in s] for s in segs]
    return np.array(segs, dtype=float) if all(isinstance(c, float) for s in segs for p in s for c in p) else \
        [np.array(s) for s in segs]


def judge(ctx, got, want, where):
    ctx.check(isinstance(got, dict), "sweep:type", f"{where}: {type(got)}")
    got = {tuple(tuple(float(c) for c in p) for p in k): v for k, v in got.items()}
    want = {tuple(tuple(float(c) for c in p) for p in k): v for k, v in want.items()}
    missing = [k for k in want if k not in got]
    ctx.check(not missing, "sweep:segment-missed", lambda: f"{where}: no intersections reported on {missing[:3]}")
    extra = [k for k in got if k not in want and len(got[k])]
    ctx.check(not extra, "sweep:segment-invented", lambda: f"{where}: {extra[:3]} has no intersections")
    for k, pts in want.items():
        g = [tuple(map(float, p)) for p in got[k]]
        tol = 1e-7 * (1 + max(abs(c) for p in k for c in p))
        ok = len(g) == len(pts) and all(abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol for a, b in zip(g, pts))
        ctx.check(ok, "sweep:points", lambda: f"{where}: on {k}: {g}, expected {pts}")


def execute(case, ctx):
    from mmcore.numeric.algorithms.sweep_line.sweep_intersector import find_intersection

    inputs, wants, keep = [], [], []
    for t in case["tasks"]:
        if not t["segs"]:
            continue
        w = oracle(tuple(tuple(tuple(p) for p in s) for s in t["segs"]))
        if w is None:
            ctx.count("outside_contract")
            continue
        arg = present(t["segs"], case["form"])
        inputs.append(arg)
        keep.append(present(t["segs"], case["form"]))
        wants.append(w)
        ctx.state(len(t["segs"]), t["kind"], sum(map(len, w.values())))
    if not inputs:
        return
    faults = [f for f in case.get("faults", []) if f["task"] < len(inputs)]
    tasks = run_tasks(case, ctx, [lambda a=a: find_intersection(a) for a in inputs], faults)
    hit = {f["task"] for f in faults}
    first = [None] * len(inputs)
    for i, t in enumerate(tasks):
        if t.error is not None:
            if i in hit and isinstance(t.error, (KeyboardInterrupt, MemoryError)):
                continue
            if isinstance(t.error, Violation):
                raise t.error
            ctx.check(False, f"sweep:raises-{type(t.error).__name__}", f"sweep {i} of {len(tasks)}: {t.error!r}")
        judge(ctx, t.result, wants[i], f"sweep {i} of {len(tasks)}")
        first[i] = t.result
        ctx.event("sweep", i, sorted((str(k), str(v)) for k, v in t.result.items()))
    # the same sweeps afterwards, alone, with other coin flips
    for i, a in enumerate(inputs):
        again = find_intersection(a)
        judge(ctx, again, wants[i], f"sweep {i} repeated")
        if first[i] is not None:
            ctx.check(again == first[i], "sweep:not-repeatable", lambda: f"{first[i]} and then {again}")
        ctx.check(same(list(a), list(keep[i])), "sweep:input-changed", f"sweep {i}")


__all__ = ["generate", "execute"]
