"""C14: the ordered map (ds.tree.avl) against a dictionary, under failing key comparisons."""
from props._util import *

PROP = "C14"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults"]
PLAN = {"quick": {"seeds": 4000, "seconds": 25}, "thorough": {"seeds": 200000, "seconds": 420}}
STATES = "distinct (size, height, operation, outcome) tuples of the tree"
REAL = ["mmcore.ds.tree.avl"]
STUB = []
ASSUMPTIONS = ["keys are totally ordered", "one task at a time uses a tree"]


def generate(rng, config):
    n = rng.choice([5, 12, 30, 80])
    span = rng.choice([4, 10, 40, 200])
    shape = rng.choice(["mixed", "ascending", "descending", "churn"])
    ops = []
    nxt = 0
    for i in range(n):
        k = rng.randrange(span)
        if shape == "ascending" and i < n // 2:
            k, nxt = nxt, nxt + 1
            ops.append(["put", k, rng.randrange(1000)])
            continue
        if shape == "descending" and i < n // 2:
            k, nxt = -nxt, nxt + 1
            ops.append(["put", k, rng.randrange(1000)])
            continue
        if nxt and rng.chance(0.6):
            k = rng.randrange(nxt) * (1 if shape == "ascending" else -1)
        op = rng.weighted([("put", 5), ("del", 5 if shape == "churn" else 3), ("get", 2), ("find", 1)])
        ops.append([op, k] + ([rng.randrange(1000)] if op == "put" else []))
    if config == "faults":
        for _ in range(rng.randrange(1, 6)):
            o = rng.choice(ops)
            if len(o) == (3 if o[0] == "put" else 2):
                o.append({"cmp": rng.randrange(1, 14)})
    return {"env": base_env(rng), "ops": ops}


def structure(ctx, tree):
    def walk(t):
        if t.node is None:
            return -1
        l, r = walk(t.node.left), walk(t.node.right)
        ctx.check(abs(l - r) <= 1, "avl:unbalanced", f"subtree heights {l} and {r} under key {t.node.key}")
        return 1 + max(l, r)

    return walk(tree)


def execute(case, ctx):
    from mmcore.ds.tree.avl import AVL
    from sim.sched import Injected

    tree, model = AVL(), {}
    for op in case["ops"]:
        fault = op[-1] if isinstance(op[-1], dict) else None
        name, k = op[0], op[1]
        FaultyKey.armed = fault["cmp"] if fault else None
        key = FaultyKey(k)
        failed = False
        try:
            if name == "put":
                tree[key] = op[2]
            elif name == "del":
                del tree[key]
            elif name == "get":
                hit = tree.search(key)
                got = hit.data if hit is not None else None
            else:
                got = None
                hit = tree.search(key)
        except Injected:
            failed = True
            ctx.fault("comparison_raises")
        finally:
            FaultyKey.armed = None
        if not failed:
            if name == "put":
                model[k] = op[2]
            elif name == "del":
                model.pop(k, None)
            else:
                ctx.check((hit is not None) == (k in model), "avl:membership", f"key {k} found: {hit is not None}")
                if hit is not None:
                    ctx.check(hit.data == model[k], "avl:value", f"key {k} holds {hit.data}, stored {model[k]}")
        nodes = tree.inorder_traverse()
        keys = [n.key.v for n in nodes]
        ctx.check(keys == sorted(model), "avl:contents", lambda: f"after {op}: keys {keys}, expected {sorted(model)}")
        got = {n.key.v: n.data for n in nodes}
        ctx.check(got == model, "avl:data", lambda: f"after {op}: {got}, expected {model}")
        h = structure(ctx, tree)
        ctx.check(tree.height == h, "avl:height", f"recorded {tree.height}, real {h}")
        ctx.event(name, k, failed, len(keys), h)
        ctx.state(len(keys), h, name, failed)
    for k in model:
        ctx.check(tree[FaultyKey(k)] == model[k], "avl:lookup", f"key {k}")
