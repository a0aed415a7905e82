"""C17: the circular list (ds.cdll) against a Python list, under failing subclass hooks."""
from props._util import *

PROP = "C17"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults"]
PLAN = {"quick": {"seeds": 4000, "seconds": 30}, "thorough": {"seeds": 200000, "seconds": 300}}
STATES = "distinct (length, operation, position class, outcome) tuples"
REAL = ["mmcore.ds.cdll"]
STUB = []
ASSUMPTIONS = ["nodes handed in are not members of another list"]


def generate(rng, config):
    n = rng.choice([4, 10, 30, 60])
    ops = []
    for _ in range(n):
        op = rng.weighted([("append", 5), ("insert", 4), ("append_node", 2), ("remove", 3), ("pop", 3), ("set", 2),
                           ("replace", 2), ("get", 2), ("index", 2), ("contains", 1)])
        o = [op, rng.choice([0, 0, 1, rng.randrange(-2, 12), 10**6]), rng.randrange(6)]
        if config == "faults" and rng.chance(0.15):
            o.append({"hook": 1})
        ops.append(o)
    return {"env": base_env(rng), "items": [rng.randrange(6) for _ in range(rng.choice([0, 0, 1, 2, 5]))], "ops": ops}


def execute(case, ctx):
    from mmcore.ds.cdll import CDLL, Node
    from sim.sched import Injected

    armed = [False]

    class Ring(CDLL):
        def insert_hook(self, node):
            if armed[0]:
                armed[0] = False
                raise Injected("hook")

        def remove_hook(self, node):
            if armed[0]:
                armed[0] = False
                raise Injected("hook")

    ring, model = Ring(case["items"]), list(case["items"])

    def snapshot(where):
        n = len(model)
        fwd, node = [], ring.head
        for _ in range(n + 3):
            if node is None:
                break
            fwd.append(node.data)
            node = node.next
            if node is ring.head:
                break
        back, node = [], ring.head.previous if ring.head is not None else None
        for _ in range(n + 3):
            if node is None:
                break
            back.append(node.data)
            if node is ring.head:
                break
            node = node.previous
        ctx.check(fwd == model, "ring:forward", lambda: f"{where}: {fwd}, expected {model}")
        ctx.check(back == model[::-1], "ring:backward", lambda: f"{where}: {back}, expected {model[::-1]}")
        ctx.check(len(ring) == n, "ring:length", f"{where}: {len(ring)}, expected {n}")
        ctx.check(list(ring) == model, "ring:iteration", lambda: f"{where}: {list(ring)}, expected {model}")
        ctx.check([x.data for x in ring.iter_nodes()] == model, "ring:nodes", where)

    snapshot("start")
    for op in case["ops"]:
        name, pos, val = op[:3]
        n = len(model)
        if isinstance(pos, int) and pos != 10**6 and n:
            pos = pos if pos < 0 else pos % (n + 1)
        armed[0] = len(op) > 3
        error = None
        try:
            if name == "append":
                ring.append(val)
            elif name == "append_node":
                ring.append_node(Node(val))
            elif name == "insert":
                ring.insert(val, pos)
            elif name == "remove":
                ring.remove(val)
            elif name == "pop":
                del ring[pos]
            elif name == "set":
                ring[pos] = val
            elif name == "replace":
                ring.replace_node(pos, Node(val))
            elif name == "get":
                got = ring[pos]
            elif name == "index":
                got = ring.index(val)
            else:
                got = val in ring
        except (Injected, ValueError) as e:
            error = e
        armed[0] = False
        if isinstance(error, Injected):
            ctx.fault("hook_raises")
        valid = 0 <= pos < n
        if name in ("append", "append_node"):
            ctx.check(error is None or isinstance(error, Injected), "ring:append-refused", str(error))
            model.append(val)
        elif name == "insert":
            if 0 <= pos <= n:
                ctx.check(not isinstance(error, ValueError), "ring:insert-refused", str(error))
                model.insert(pos, val)
            else:
                ctx.check(isinstance(error, ValueError), "ring:bad-position-accepted", f"insert at {pos} of {n}")
        elif name == "remove":
            if val in model:
                ctx.check(not isinstance(error, ValueError), "ring:remove-refused", str(error))
                model.remove(val)
            else:
                ctx.check(isinstance(error, ValueError), "ring:absent-value-removed", f"remove {val}")
        elif name == "pop":
            ctx.check(valid != isinstance(error, ValueError), "ring:pop-position", f"{pos} of {n}: {error!r}")
            if valid:
                del model[pos]
        elif name in ("set", "replace"):
            ctx.check(valid != isinstance(error, ValueError), "ring:set-position", f"{name} {pos} of {n}: {error!r}")
            if valid:
                model[pos] = val
        elif name == "get":
            if -n <= pos < n:
                ctx.check(error is None and got == model[pos], "ring:get", f"{pos}: {error!r}")
            else:
                ctx.check(isinstance(error, ValueError), "ring:get-out-of-range", f"{pos} of {n}")
        elif name == "index":
            exp = model.index(val) if val in model else None
            ctx.check(error is None and got == exp, "ring:index", f"{val}: {got}, expected {exp}")
        else:
            ctx.check(error is None and got == (val in model), "ring:contains", str(val))
        snapshot(f"after {op}")
        ctx.event(name, pos, val, type(error).__name__, len(model))
        ctx.state(len(model), name, "head" if pos == 0 else "end" if pos == n else "mid", type(error).__name__)
