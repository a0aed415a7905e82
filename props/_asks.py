"""Questions put to the library: each is asked alone first and judged, then again among faults, after other questions
and beside other tasks; it must keep its answer, leave what it was given alone and let the caller's errors through."""
import numpy as np

from props._curvesim import Alloc
from props._util import pick_sched, run_tasks, same
from sim import sched
from sim.core import exception_violation, repo_site


class Hook:
    """Stands around the functions a caller hands in: counts the calls, fails one of them, is a scheduling point."""

    def __init__(self, fail_at=0, kind="raise"):
        self.calls = 0
        self.fail_at = fail_at
        self.kind = kind
        self.raised = None

    def __call__(self, f):
        def called(*a, **k):
            self.calls += 1
            if self.calls == self.fail_at:
                self.raised = sched.make_exception({"raise": "callback", "interrupt": "interrupt", "nomem": "nomem"}[self.kind])
                raise self.raised
            sched.here()
            return f(*a, **k)

        return called


def freeze(x):
    """A deep value copy of an input or a result, comparable with same()."""
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return freeze(x.item())
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else [freeze(y) for y in x.tolist()]
    if isinstance(x, memoryview) or type(x).__name__ in ("_memoryviewslice", "memoryview"):
        return np.array(x)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, (str, bytes, bool, int, float, complex, np.number, np.bool_)) or x is None:
        return x
    if hasattr(x, "__iter__") and not hasattr(x, "evaluate"):
        return [freeze(y) for y in x]
    for reader in READERS:
        got = reader(x)
        if got is not None:
            return got
    return repr(type(x))


READERS = []


def outcome(fn):
    try:
        return ("value", freeze(fn()))
    except Exception as e:  # noqa: BLE001
        return ("error", f"{type(e).__name__}@{repo_site(e)}", e)


def small_residue(rng):
    for n in (1, 2, 3, 4, 6, 9, 12, 16, 27, 64):
        a = np.full(n, rng.choice([np.nan, 1e300, -7.25, 0.0]))
        del a


def plan(rng, config, kinds, gen, most=5):
    """The random part every module of this kind shares."""
    n = rng.choice([1, 2, 3, most])
    asks = []
    for _ in range(n):
        if asks and rng.chance(0.35):
            k = asks[-1]["k"]  # the same kind again: scratch space shared by one function shows
        else:
            k = rng.choice(kinds)
        asks.append({"k": k, "a": gen(rng, k)})
    case = {"asks": asks}
    if config == "concurrent":
        if len(asks) == 1:
            k = asks[0]["k"]
            asks.append({"k": k, "a": gen(rng, k)})
        case["tasks"] = [[rng.randrange(len(asks)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        for i in range(min(2, len(asks))):
            case["tasks"][i % len(case["tasks"])][0] = i
        case["sched"] = pick_sched(rng)
    else:
        order = []
        for _ in range(rng.choice([2, 4, 7])):
            i = rng.randrange(len(asks))
            f = None
            if config == "faults" and rng.chance(0.6):
                f = {"kind": rng.choice(["raise", "raise", "interrupt", "nomem", "line", "line", "linemem", "alloc"]),
                     "where": round(rng.random(), 4)}
            order.append([i, f] if f else [i])
        case["order"] = order
    return case


def run(case, ctx, make, judge, limit=400_000):
    """make(kind, args, hook) -> (inputs, thunk); judge(kind, args, result, ctx) for the answer given alone."""
    ref, calls, points = [], [], []
    for ask in case["asks"]:
        hook = Hook()
        inputs, thunk = make(ask["k"], ask["a"], hook)
        before = freeze(inputs)
        _, err, n, s = sched.run_single(ctx, lambda: ask.__setitem__("_o", outcome(thunk)), limit=limit)
        if err is not None:
            raise err
        o = ask.pop("_o")
        ctx.check(same(freeze(inputs), before), f"{ask['k']}:input-changed", "the arguments differ after the call")
        if o[0] == "error":
            judge(ask["k"], ask["a"], o[2], ctx)
        else:
            judge(ask["k"], ask["a"], o[1], ctx)
        ref.append(o)
        calls.append(hook.calls)
        points.append(n)
        ctx.count("asked." + ask["k"])
        ctx.event("ref", ask["k"], hook.calls, n, digest(o))
        ctx.state(ask["k"], hook.calls, o[0], digest(o))

    def compare(i, o, how):
        k = case["asks"][i]["k"]
        ctx.check(o[0] == ref[i][0], f"{k}:{how}:outcome", lambda: f"alone: {ref[i][:2]}; {how}: {o[:2]}")
        ctx.check(same(o[1], ref[i][1]), f"{k}:{how}:answer", lambda: f"alone: {ref[i][1]}; {how}: {o[1]}")

    if "tasks" in case:
        log = []

        def worker(js):
            def go():
                for i in js:
                    ask = case["asks"][i % len(case["asks"])]
                    hook = Hook()
                    inputs, thunk = make(ask["k"], ask["a"], hook)
                    before = freeze(inputs)
                    o = outcome(thunk)
                    log.append((i % len(case["asks"]), o, same(freeze(inputs), before)))
            return go

        ts = run_tasks(case, ctx, [worker(js) for js in case["tasks"]], limit=limit * 4)
        for t in ts:
            if t.error is not None:
                raise exception_violation(t.error)
        for i, o, kept in log:
            ctx.check(kept, f"{case['asks'][i]['k']}:input-changed", "the arguments differ after the call")
            compare(i, o, "beside others")
            ctx.event("task", i, digest(o))
    for step in case.get("order", []):
        i = step[0] % len(case["asks"])
        f = step[1] if len(step) > 1 else None
        ask = case["asks"][i]
        k = ask["k"]
        if f is None:
            inputs, thunk = make(k, ask["a"], Hook())
            before = freeze(inputs)
            compare(i, outcome(thunk), "later")
            ctx.check(same(freeze(inputs), before), f"{k}:input-changed", "the arguments differ after the call")
            continue
        kind = f["kind"]
        hook = Hook()
        box = []
        faults = ()
        alloc = None
        if kind in ("raise", "interrupt", "nomem"):
            if not calls[i]:
                continue
            hook = Hook(1 + min(int(f["where"] * calls[i]), calls[i] - 1), kind)
        elif kind == "alloc":
            alloc = 1 + int(f["where"] * 40)
        else:
            if not points[i]:
                continue
            faults = [{"task": 0, "at": 1 + min(int(f["where"] * points[i]), points[i] - 1), "kind": "interrupt" if kind == "line" else "nomem"}]
        inputs, thunk = make(k, ask["a"], hook)
        before = freeze(inputs)

        def body():
            try:
                box.append(("value", freeze(thunk())))
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, sched.Aborted):
                    raise
                box.append(("error", e))

        a = Alloc()
        with a.fail_at(alloc or 0):
            _, err, _, s = sched.run_single(ctx, body, faults=faults, limit=limit)
        if err is not None and not box:
            raise exception_violation(err)
        if kind in ("raise", "interrupt", "nomem"):
            ctx.fault("callback_" + kind)
            ctx.check(box and box[0][0] == "error", f"{k}:swallowed", lambda: f"the caller's {hook.raised!r} was swallowed: {box}")
            e = box[0][1]
            seen = set()
            while e is not None and e is not hook.raised and id(e) not in seen:
                seen.add(id(e))
                e = e.__cause__ or e.__context__
            ctx.check(e is hook.raised, f"{k}:exchanged", lambda: f"the caller's {hook.raised!r} became {box[0][1]!r}")
        if a.fired:
            ctx.fault("allocation_refused")
        ctx.check(same(freeze(inputs), before), f"{k}:input-changed-by-failure", lambda: f"the arguments differ after {kind}")
        ctx.event("fault", k, kind, box[0][0] if box else "none")
        inputs, thunk = make(k, ask["a"], Hook())
        compare(i, outcome(thunk), "after a failure")


def digest(o):
    if o[0] == "error":
        return o[1]
    return repr(o[1])[:400] if not isinstance(o[1], np.ndarray) else o[1].tobytes().hex()[:200]
