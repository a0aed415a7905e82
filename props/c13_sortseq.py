"""C13: the sorted sequence, skip list and event queue of the sweep line against plain sorted lists."""
from props._util import *

PROP = "C13"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults", "concurrent"]
PLAN = {"quick": {"seeds": 4000, "seconds": 30}, "thorough": {"seeds": 200000, "seconds": 300}}
STATES = "distinct (length, height, operation, outcome) tuples and interleavings"
REAL = ["mmcore.numeric.algorithms.sweep_line.skiplist", "mmcore.numeric.algorithms.sweep_line.sortseq",
        "mmcore.numeric.algorithms.sweep_line.priority_queue"]
STUB = ["coin flips of the skip lists (seeded)"]
ASSUMPTIONS = ["keys are totally ordered", "one task at a time uses a sequence"]


def generate(rng, config):
    span = rng.choice([4, 12, 40])

    def history():
        ops = []
        for _ in range(rng.choice([5, 15, 40, 80])):
            op = rng.weighted([("insert", 8), ("set", 2), ("delete", 4), ("delitem", 3), ("delnode", 3), ("lookup", 2), ("get", 1),
                               ("locate", 3), ("insert_at", 4), ("change", 1), ("succ", 1), ("pred", 1), ("min", 1),
                               ("push", 3), ("pop", 3), ("reverse", 1)])
            o = [op, rng.randrange(span), rng.randrange(1000)]
            if config == "faults" and rng.chance(0.1):
                o.append({"cmp": rng.randrange(1, 12)})
            ops.append(o)
        return ops

    case = {"env": base_env(rng), "tasks": [history() for _ in range(rng.choice([2, 3]) if config == "concurrent" else 1)]}
    if len(case["tasks"]) == 1:
        case["ops"] = case.pop("tasks")[0]
    else:
        case["sched"] = pick_sched(rng)
    return case


def walk(ctx, seq, model, where):
    n = len(model)
    keys = [k for k, _ in model]
    got, node = [], seq.head.succ[0]
    while node is not seq.tail and len(got) <= n + 2:
        got.append((node.key.v, node.data))
        node = node.succ[0]
    ctx.check(got == model, "seq:forward", lambda: f"{where}: {got}, expected {model}")
    back, node = [], seq.tail.prev[0]
    while node is not seq.head and len(back) <= n + 2:
        back.append(node.key.v)
        node = node.prev[0]
    ctx.check(back == keys[::-1], "seq:backward", lambda: f"{where}: {back}, expected {keys[::-1]}")
    ctx.check(len(seq) == n and seq.empty() == (n == 0), "seq:length", f"{where}: {len(seq)}, expected {n}")
    ctx.check([k.v for k in seq] == keys, "seq:iteration", where)
    ctx.check([(k.v, d) for k, d in seq.iteritems()] == model, "seq:items", where)


def run(ctx, ops, label, faulty, PriorityQueue, SortSeq):
    from sim.sched import Injected

    Key = FaultyKey if faulty else type("Key", (FaultyKey,), {"__slots__": (), "tick": classmethod(lambda cls: None)})
    seq, model = SortSeq(), {}
    queue, heap = PriorityQueue(), []
    for op in ops:
        name, k, val = op[:3]
        if faulty:
            FaultyKey.armed = op[3]["cmp"] if len(op) > 3 else None
        key = Key(k)
        order = sorted(model)
        failed, res = False, None
        node = None
        if name in ("delnode", "change", "succ", "pred", "insert_at") and order:
            armed, FaultyKey.armed = FaultyKey.armed, None
            above = [x for x in order if x >= k]
            below = [x for x in order if x <= k]
            if name == "insert_at":
                anchor = above[0] if above and (val % 2 or not below) else below[-1]
            else:
                anchor = order[k % len(order)]
            node = seq.lookup(Key(anchor))
            ctx.check(node is not None and node.key.v == anchor, "seq:lookup", f"{label}: key {anchor} not found in {order}")
            FaultyKey.armed = armed
        elif name in ("delnode", "change", "succ", "pred", "insert_at"):
            FaultyKey.armed = None if faulty else FaultyKey.armed
            continue
        try:
            if name == "insert":
                res = seq.insert(key, val)
            elif name == "set":
                seq[key] = val
            elif name == "delete":
                seq.delete(key)
            elif name == "delitem":
                del seq[key]
            elif name == "delnode":
                seq.delItem(node)
            elif name == "lookup":
                res = seq.lookup(key)
            elif name == "get":
                res = seq[key]
            elif name == "locate":
                res = seq.locate(key)
            elif name == "insert_at":
                res = seq.insertAt(node, key, val)
            elif name == "change":
                seq.changeInf(node, val)
            elif name == "succ":
                res = seq.succ(node)
            elif name == "pred":
                res = seq.pred(node)
            elif name == "min":
                res = seq.min()
            elif name == "push":
                res = queue.insert(key, val)
            elif name == "pop":
                res = queue.delMin() if not queue.empty() else None
            elif name == "reverse" and len(order) >= 2:
                i = k % (len(order) - 1)
                j = i + 1 + val % (len(order) - 1 - i)
                armed, FaultyKey.armed = FaultyKey.armed, None
                a, b = seq.lookup(Key(order[i])), seq.lookup(Key(order[j]))
                seq.reverseItems(a, b)
                want = order[:i] + order[i:j + 1][::-1] + order[j + 1:]
                walk(ctx, seq, [(x, model[x]) for x in want], f"{label} reversed {order[i]}..{order[j]}")
                seq.reverseItems(b, a)  # the sweep restores the order by passing the crossing
        except Injected:
            failed = True
            ctx.fault("comparison_raises")
        if faulty:
            FaultyKey.armed = None
        where = f"{label} after {op}"
        at = lambda n: None if n is None else n.key.v
        if not failed:
            if name in ("insert", "insert_at"):
                model[k] = val
                ctx.check(at(res) == k and res.data == val, "seq:insert-result", where)
            elif name == "set":
                model[k] = val
            elif name in ("delete", "delitem"):
                model.pop(k, None)
            elif name == "delnode":
                model.pop(node.key.v)
            elif name == "change":
                model[node.key.v] = val
            elif name == "lookup":
                ctx.check(at(res) == (k if k in model else None), "seq:lookup", f"{where}: {at(res)}")
                ctx.check(res is None or res.data == model[k], "seq:lookup-data", where)
            elif name == "get":
                ctx.check(res == model.get(k), "seq:get", f"{where}: {res}")
            elif name == "locate":
                want = next((x for x in order if x >= k), None)
                ctx.check(at(res) == want, "seq:locate", lambda: f"{where}: {at(res)}, expected {want} of {order}")
            elif name in ("succ", "pred"):
                i = order.index(node.key.v) + (1 if name == "succ" else -1)
                want = order[i] if 0 <= i < len(order) else None
                ctx.check(at(res) == want, "seq:neighbour", f"{where}: {at(res)}, expected {want}")
            elif name == "min":
                ctx.check(at(res) == (order[0] if order else None), "seq:min", where)
            elif name == "push":
                heap.append((k, val))
                ctx.check(queue.prio(res).v == k and queue.inf(res) == val, "queue:insert-result", where)
            elif name == "pop":
                if heap:
                    low = min(x for x, _ in heap)
                    got = (queue.prio(res).v, queue.inf(res))
                    ctx.check(got[0] == low and got in heap, "queue:order", lambda: f"{where}: {got} from {sorted(heap)}")
                    heap.remove(got)
                else:
                    ctx.check(res is None, "queue:empty", where)
        elif name in ("push", "pop"):  # a heap half-way through a sift keeps its elements but not its order
            queue, heap = PriorityQueue(), []
        walk(ctx, seq, sorted(model.items()), where)
        ctx.check(queue.size() == len(heap) and queue.empty() == (not heap), "queue:size", where)
        if heap:
            ctx.check(queue.prio(queue.min()).v == min(x for x, _ in heap), "queue:min", where)
        ctx.event(label, name, k, failed, len(model), len(seq.head.succ))
        ctx.state(len(model), len(seq.head.succ), name, failed)


def execute(case, ctx):
    from mmcore.numeric.algorithms.sweep_line.priority_queue import PriorityQueue
    from mmcore.numeric.algorithms.sweep_line.sortseq import SortSeq

    kinds = (PriorityQueue, SortSeq)  # imported here: an import inside a task would hold the interpreter's import lock
    if "ops" in case:
        return run(ctx, case["ops"], "sequence", True, *kinds)
    tasks = run_tasks(case, ctx, [lambda o=o, i=i: run(ctx, o, f"sequence {i}", False, *kinds) for i, o in enumerate(case["tasks"])])
    for t in tasks:
        if isinstance(t.error, Violation):
            raise t.error
        ctx.check(t.error is None, f"seq:raises-{type(t.error).__name__}", repr(t.error))
