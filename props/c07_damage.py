"""C07: reading back a store of curves that was torn, cut short or damaged never does anything but raise ValueError or give a curve."""
import struct

import numpy as np

from props._curvesim import gen_curve
from props._util import base_env
from props.c06_persist import build, prepare, state

PROP = "C07"
LEVEL = "exploration"
CONFIGS = ["torn", "damaged", "header", "damaged"]
PLAN = {"quick": {"seeds": 2500, "seconds": 30, "timeout": 20}, "thorough": {"seeds": 150000, "seconds": 420, "timeout": 20}}
STATES = "distinct (damage kind, field hit, outcome) tuples"
REAL = ["mmcore.geom.nurbs.NURBSCurve.serialize/deserialize"]
STUB = ["the disk: an in-memory log whose tail can be cut, zeroed, repeated or flipped"]
ASSUMPTIONS = []

FIELDS = ["magic", "version", "degree", "periodic", "points", "knots"]


def generate(rng, config):
    curves = [gen_curve(rng) + [[rng.choice(["normalize", "insert", "weights", "periodic", "none"])]] for _ in range(rng.choice([1, 2, 3]))]
    if config == "torn":
        kinds = ["cut", "cut", "zero_tail", "swap", "repeat", "short_block"]
    elif config == "header":
        kinds = ["header", "header", "header_and_length"]
    else:
        kinds = ["flip", "byte", "header", "insert", "delete", "cut", "knot", "old_tail"]
    ops = [[rng.choice(kinds), rng.randrange(len(curves)), round(rng.random(), 5), rng.randrange(1 << 16)] for _ in range(rng.choice([1, 2, 5]))]
    return {"env": base_env(rng), "curves": curves, "ops": ops}


def damage(kind, data, frac, seed, others):
    b = bytearray(data)
    n = len(b)
    at = min(n - 1, int(frac * n))
    if kind == "cut":
        return bytes(b[:at])
    if kind == "zero_tail":
        b[at:] = bytes(n - at)
    elif kind == "short_block":
        cut = min(n, (at // 64 + 1) * 64)
        return bytes(b[:cut])
    elif kind == "swap":
        other = others[seed % len(others)]
        return bytes(b[:at]) + other[at:]
    elif kind == "repeat":
        return bytes(b[:at]) + bytes(b)
    elif kind == "flip":
        b[at] ^= 1 << (seed % 8)
    elif kind == "byte":
        b[at] = seed % 256
    elif kind == "insert":
        b[at:at] = bytes([seed % 256] * (1 + seed % 9))
    elif kind == "delete":
        del b[at:at + 1 + seed % 9]
    elif kind == "old_tail":
        b += struct.pack("<I", seed)  # records of the first version carried four more bytes
    elif kind == "knot":
        nc = struct.unpack_from("<I", b, 16)[0]
        k = (n - 24 - nc * 32) // 8
        if k > 0:
            v = [float("nan"), float("inf"), -float("inf"), 1e308, -1e308, 0.0][seed % 6]
            struct.pack_into("<d", b, 24 + nc * 32 + 8 * (seed // 7 % k), v)
    elif kind in ("header", "header_and_length"):
        field = seed % 5 + 1
        val = [0, 1, 2, 7, 255, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**30, 2**29, 3, 4][seed // 5 % 13]
        struct.pack_into("<I", b, 4 * field, val)
        if kind == "header_and_length":
            nc, nk = struct.unpack_from("<II", b, 16)
            want = 24 + (nc * 32 + nk * 8)
            if want < 1 << 16:
                b = (b + bytes(want))[:want]
    return bytes(b)


def execute(case, ctx):
    from mmcore.geom import nurbs as nb

    log, states = [], []
    for spec in case["curves"]:
        c = prepare("curve", build(nb, "curve", spec[:5]), spec[5])
        log.append(bytes(c.serialize()))
        states.append(state("curve", c))
    for kind, i, frac, seed in case["ops"]:
        i %= len(log)
        data = damage(kind, log[i], frac, seed, log)
        ctx.fault("storage_" + kind)
        for buf in (data, bytearray(data)):
            try:
                c = nb.NURBSCurve.deserialize(buf)
            except ValueError:
                outcome = "refused"
            except MemoryError:
                # an honest answer only where the data really asks for that much
                ctx.check(len(data) > 1 << 20, "damage:memory", f"{len(data)} bytes of data exhaust memory")
                outcome = "refused"
            else:
                outcome = "curve"
                s = state("curve", c)
                if data in log:
                    ctx.check(s == states[log.index(data)], "damage:exact", "intact data give another curve")
                # what was accepted is a curve: degree, points and knots belong together and it can be evaluated
                n, k = len(c.control_points), len(c.knots)
                ctx.check(k == n + c.degree + 1 and 0 <= c.degree < n, "damage:inconsistent", f"degree {c.degree}, {n} points, {k} knots")
                K = np.array(c.knots)
                # ... and it is the one the bytes spell out
                deg, per, nc, nk = struct.unpack_from("<IIII", data, 8)
                spelled = np.frombuffer(data, "<f8", nc * 4, 24).reshape(nc, 4), np.frombuffer(data, "<f8", nk, 24 + nc * 32)
                ctx.check((c.degree, bool(c.periodic), n, k) == (deg, bool(per), nc, nk), "damage:header_read", f"{(deg, per, nc, nk)} read as {(c.degree, n, k)}")
                ctx.check(np.array(c.control_pointsw).tobytes() == spelled[0].tobytes(), "damage:points_read", "the points differ from those of the data")
                ctx.check(K.tobytes() == spelled[1].tobytes(), "damage:knots_read", f"{spelled[1].tolist()} read as {K.tolist()}")
                ctx.check(bool(np.all(K[:-1] <= K[1:])), "damage:knots", f"{K.tolist()}")
                a, b = c.interval()
                if np.isfinite(a) and np.isfinite(b):
                    for f in (0.0, 0.5, 1.0):
                        p = c.evaluate(a + (b - a) * f)
                        ctx.check(np.asarray(p).shape == (3,), "damage:evaluate", f"{p}")
                    ctx.check(bytes(c.serialize())[:20] == data[:20], "damage:resave", "saved again with another header")
            ctx.event(kind, len(data), outcome)
            ctx.steps += 1
            ctx.state(kind, int(frac * 20), outcome)
    # the intact records are still readable afterwards
    for data, s in zip(log, states):
        ctx.check(state("curve", nb.NURBSCurve.deserialize(data)) == s, "damage:intact", "an intact record reads differently")
