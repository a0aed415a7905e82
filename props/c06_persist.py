"""C06: saved curves and surfaces come back exactly, and what is saved depends on their state alone."""
import copy
import pickle

import numpy as np

from props._curvesim import Alloc, gen_curve, layout
from props._surfsim import gen_surface
from props._util import base_env

PROP = "C06"
LEVEL = "exploration"
CONFIGS = ["plain", "extreme", "memory"]
PLAN = {"quick": {"seeds": 2500, "seconds": 30}, "thorough": {"seeds": 150000, "seconds": 420}}
STATES = "distinct (kind, format, degree, size, period flag, extreme values) tuples"
REAL = ["mmcore.geom.nurbs.NURBSCurve.serialize/deserialize/pickling", "mmcore.geom.nurbs.NURBSSurface pickling"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["the reader runs the same version as the writer"]

EXTREME = [0.0, -0.0, 5e-324, 1.7e308, -1.7e308, 1e-300, 0.1 + 0.2, 1 / 3, float("inf"), float("nan")]


def generate(rng, config):
    items = []
    for _ in range(rng.choice([1, 2, 4])):
        kind = rng.choice(["curve", "curve", "surface"])
        obj = gen_curve(rng) if kind == "curve" else gen_surface(rng)
        pre = [rng.choice(["evaluate", "copy", "normalize", "insert", "weights", "periodic", "none"]) for _ in range(rng.randrange(3))]
        items.append([kind, obj, pre, rng.choice(["serialize", "serialize", "pickle0", "pickle2", "pickle4", "pickle5", "deepcopy"]),
                      [[rng.randrange(64), rng.randrange(4), rng.choice(range(len(EXTREME)))] for _ in range(rng.randrange(1, 4))]
                      if config == "extreme" else [],
                      rng.randrange(1, 8) if config == "memory" else 0])
    return {"env": base_env(rng), "items": items}


def build(nb, kind, obj):
    if kind == "curve":
        pts, p, knots, how, periodic = obj
        args = (layout(pts, how), p) + ((np.array(knots, dtype=float),) if knots is not None else ())
        return nb.NURBSCurve(*args, periodic=True) if periodic else nb.NURBSCurve(*args)
    rows, deg, ku, kv, how = obj
    f = lambda k: None if k is None else np.array(k, dtype=float)  # noqa: E731
    return nb.NURBSSurface(layout(rows, how), tuple(deg), f(ku), f(kv))


def state(kind, o):
    if kind == "curve":
        return (o.degree, bool(o.periodic), np.array(o.control_pointsw).tobytes(), np.array(o.knots).tobytes(), len(o.knots), tuple(o.interval()),
                np.array(o.greville_abscissae).tobytes())
    return (tuple(o.degree), tuple(o.shape), np.array(o.control_points_w).tobytes(), o.knots_u.tobytes(), o.knots_v.tobytes(), tuple(map(tuple, o.interval())))


def prepare(kind, o, pre):
    for what in pre:
        if what == "evaluate":
            o.evaluate(o.interval()[0] + 0.0) if kind == "curve" else o.evaluate(np.array([o.interval()[0][0], o.interval()[1][0]]))
        elif what == "copy":
            o = o.copy()
        elif what == "normalize":
            o.normalize_knots()
        elif what == "weights" and kind == "curve":
            o.weights = np.linspace(0.5, 2.0, len(o.control_points))
        elif what == "periodic" and kind == "curve" and not o.periodic:
            o.make_periodic()
        elif what == "insert" and (kind == "surface" or not o.periodic):
            K = o.knots if kind == "curve" else o.knots_u
            t = K[0] + (K[-1] - K[0]) * 0.3719
            try:
                o.insert_knot(t, 1) if kind == "curve" else o.insert_knot_u(t, 1)
            except ValueError:
                pass
    return o


def save(kind, fmt, o):
    return o.serialize() if fmt == "serialize" else pickle.dumps(o, int(fmt[6:]))


def load(nb, kind, fmt, data):
    return nb.NURBSCurve.deserialize(data) if fmt == "serialize" else pickle.loads(data)


def execute(case, ctx):
    from mmcore.geom import nurbs as nb

    saved = []
    alloc = Alloc()
    for kind, obj, pre, fmt, extreme, fail in case["items"]:
        if kind == "surface" and fmt == "serialize":
            fmt = "pickle4"
        o = prepare(kind, build(nb, kind, obj), pre)
        if extreme:
            # any double a caller can store must survive: zeros with a sign, denormals, the largest, infinities, not-a-number
            if kind == "curve":
                P = np.array(o.control_pointsw)
                for i, j, x in extreme:
                    P[i % len(P), j] = EXTREME[x] if j < 3 or EXTREME[x] > 0 else 1.0
                o.control_points = P
            else:
                P = np.array(o.control_points_w)
                for i, j, x in extreme:
                    P[i % P.shape[0], i % P.shape[1], j % 3] = EXTREME[x]
                o = nb.NURBSSurface(P, tuple(o.degree), o.knots_u, o.knots_v)
        s0 = state(kind, o)
        if fmt == "deepcopy":
            twin = copy.deepcopy(o)
            ctx.check(state(kind, twin) == s0, f"persist:{kind}:deepcopy", lambda: f"{state(kind, twin)} vs {s0}")
            continue
        if fail:
            try:
                with alloc.fail_at(fail):
                    load(nb, kind, fmt, save(kind, fmt, o))
            except MemoryError:
                ctx.fault("allocation_fails")
            ctx.check(state(kind, o) == s0, f"persist:{kind}:{fmt}:failed-save-changes", "saving changed the object")
        data = bytes(save(kind, fmt, o))
        ctx.check(state(kind, o) == s0, f"persist:{kind}:{fmt}:save-changes", "saving changed the object")
        # the same state saved again, and saved from a copy built in another place of memory, gives the same bytes
        junk = [bytearray(b"\xa5") * (37 * k + 11) for k in range(9)]
        del junk
        again = bytes(save(kind, fmt, o))
        ctx.check(again == data, f"persist:{kind}:{fmt}:bytes", lambda: f"two saves of one object differ at byte {next((i for i, (x, y) in enumerate(zip(again, data)) if x != y), -1)} of {len(data)}")
        if fmt == "serialize":
            ctx.check(bytes(save(kind, fmt, o.copy())) == data, f"persist:{kind}:{fmt}:bytes-copy", "a copy is saved as other bytes")
            ctx.event(len(data), hash_of(data))
        saved.append((kind, fmt, data, s0))
    for kind, fmt, data, s0 in saved:
        back = load(nb, kind, fmt, data)
        s1 = state(kind, back)
        ctx.check(s1 == s0, f"persist:{kind}:{fmt}:roundtrip", lambda: f"{s1} vs {s0}")
        ctx.check(type(back) is (nb.NURBSCurve if kind == "curve" else nb.NURBSSurface), f"persist:{kind}:{fmt}:type", f"{type(back)}")
        if kind == "curve":
            a, b = back.interval()
            twin = nb.NURBSCurve.deserialize(back.serialize())
            for f in (0.0, 0.31, 1.0):
                t = a + (b - a) * f
                ctx.check(np.array_equal(back.evaluate(t), twin.evaluate(t), equal_nan=True), f"persist:{kind}:{fmt}:evaluate", f"at {t}")
        ctx.state(kind, fmt, len(data))
        ctx.event(kind, fmt, len(data))
        ctx.steps += 1


def hash_of(data):
    import hashlib

    return hashlib.sha256(data).hexdigest()[:12]
