"""Shared pieces of the property modules."""
import numpy as np

from sim import sched
from sim.core import Violation
from sim.rng import Stream


def base_env(rng):
    """The simulated environment of a run: what fresh memory holds, the library's coin flips, address layout."""
    return {
        "residue": rng.randrange(4),
        "residue_seed": rng.randrange(1 << 30),
        "coins": rng.randrange(1 << 30),
        "ballast": [rng.randrange(100, 60000) for _ in range(rng.randrange(4))],
    }


def pick_sched(rng):
    return {"seed": rng.randrange(1 << 40), "p": rng.choice([0.5, 0.2, 0.05, 0.05, 0.01, 0.002])}


def scheduler(case, ctx, faults=(), limit=3_000_000):
    spec = case.get("sched") or {"preempt": []}
    if "preempt" in spec:
        return sched.Scheduler(ctx, preempt=spec["preempt"], faults=faults, limit=limit)
    return sched.Scheduler(ctx, rng=Stream("sched", spec["seed"]), p=spec["p"], faults=faults, limit=limit)


def run_tasks(case, ctx, fns, faults=(), limit=3_000_000):
    """Runs the functions as concurrent tasks under the case's schedule. Returns the tasks."""
    s = scheduler(case, ctx, faults, limit)
    ts = [s.spawn(f) for f in fns]
    try:
        s.run()
    finally:
        if isinstance(case.get("sched"), dict) and "seed" in case["sched"]:
            case["sched"]["recorded"] = s.schedule()
    ctx.count("interleaved_runs", 1 if s.switches else 0)
    return ts


class FaultyKey:
    """A totally ordered key whose comparison can be made to fail: the user's own code raising inside a container."""

    __slots__ = ("v",)
    armed = None
    calls = 0

    def __init__(self, v):
        self.v = v

    @classmethod
    def tick(cls):
        cls.calls += 1
        if cls.armed is not None:
            cls.armed -= 1
            if cls.armed <= 0:
                cls.armed = None
                raise sched.Injected("comparison")

    def _o(self, other):
        return other.v if isinstance(other, FaultyKey) else other

    def __lt__(self, o):
        self.tick()
        return self.v < self._o(o)

    def __gt__(self, o):
        self.tick()
        return self.v > self._o(o)

    def __le__(self, o):
        self.tick()
        return self.v <= self._o(o)

    def __ge__(self, o):
        self.tick()
        return self.v >= self._o(o)

    def __eq__(self, o):
        self.tick()
        return self.v == self._o(o)

    def __ne__(self, o):
        self.tick()
        return self.v != self._o(o)

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"k{self.v}"


def arr(x):
    return np.array(x, dtype=float)


def same(a, b):
    """Bit-for-bit equality of results (NaNs equal), through containers."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.array_equal(x, y))


__all__ = ["np", "Violation", "Stream", "base_env", "pick_sched", "scheduler", "run_tasks", "FaultyKey", "arr", "same"]
