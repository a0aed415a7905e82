"""C15: the dynamic k-d tree (ds.bkdtree) against brute force over a multiset of points."""
from collections import Counter

from props._util import *

PROP = "C15"
LEVEL = "exploration"
CONFIGS = ["plain", "plain", "faults"]
PLAN = {"quick": {"seeds": 4000, "seconds": 40}, "thorough": {"seeds": 200000, "seconds": 420}}
STATES = "distinct (size, depth, operation, duplicates present) tuples of the tree"
REAL = ["mmcore.ds.bkdtree"]
STUB = []
ASSUMPTIONS = ["points are tuples of finite numbers of one dimension", "one task at a time uses a tree"]


def generate(rng, config):
    dim = rng.choice([1, 2, 2, 3, 3, 4])
    grid = rng.choice([2, 3, 6, 40, 0])
    n = rng.choice([6, 15, 40, 90])

    def point():
        if grid:
            return [rng.randrange(grid) for _ in range(dim)]
        return [round(rng.uniform(-50, 50), 4) for _ in range(dim)]

    start = [point() for _ in range(rng.choice([0, 0, 3, 10, 40]))]
    seen = list(start)
    ops = []
    for _ in range(n):
        op = rng.weighted([("ins", 4), ("del", 4), ("near", 3), ("knear", 3)])
        if op == "ins":
            p = rng.choice(seen) if seen and rng.chance(0.15) else point()
            seen.append(p)
            ops.append([op, p])
        elif op == "del":
            ops.append([op, rng.choice(seen) if seen and rng.chance(0.85) else point()])
        elif op == "near":
            ops.append([op, rng.choice(seen) if seen and rng.chance(0.2) else point()])
        else:
            ops.append([op, point(), rng.choice([1, 2, 3, 5, 20])])
    case = {"env": base_env(rng), "dim": dim, "items": start, "ops": ops}
    if config == "faults":
        for _ in range(rng.randrange(1, 4)):
            o = rng.choice(ops)
            if o[0] in ("ins", "del") and not isinstance(o[-1], dict):
                o.append({"bad": rng.choice([-1, 1])})
    return case


def walk(ctx, node, lo, hi, depth, dim):
    """The search invariant: everything left of a node is <= it and everything right is >= it on the node's axis."""
    if node is None:
        return 0, -1
    for a in range(dim):
        ctx.check(lo[a] <= node.point[a] <= hi[a], "kd:order", f"point {node.point} outside its half-spaces on axis {a}")
    l_hi, r_lo = list(hi), list(lo)
    l_hi[node.axis] = min(l_hi[node.axis], node.point[node.axis])
    r_lo[node.axis] = max(r_lo[node.axis], node.point[node.axis])
    ln, ld = walk(ctx, node.left, lo, l_hi, depth + 1, dim)
    rn, rd = walk(ctx, node.right, r_lo, hi, depth + 1, dim)
    ctx.check(node.size == ln + rn + 1, "kd:size", f"recorded size {node.size}, real {ln + rn + 1}")
    return ln + rn + 1, 1 + max(ld, rd)


def contents(node, out):
    if node is not None:
        out[tuple(node.point)] += 1
        contents(node.left, out)
        contents(node.right, out)
    return out


def execute(case, ctx):
    from mmcore.ds.bkdtree import BalancedKDTree

    dim = case["dim"]
    given = [tuple(p) for p in case["items"]]
    handed = list(given)
    tree = BalancedKDTree(handed)
    ctx.check(handed == given, "kd:caller-list", "building the tree reordered the caller's list")
    model = Counter(given)
    inf = float("inf")

    def d2(p, q):
        return sum((a - b) ** 2 for a, b in zip(p, q))

    for op in case["ops"]:
        name, p = op[0], tuple(op[1])
        bad = op[-1]["bad"] if isinstance(op[-1], dict) else 0
        if bad:
            wrong = p[:-1] if bad < 0 else p + (0,)
            before = contents(tree.root, Counter())
            if before:
                try:
                    (tree.insert if name == "ins" else tree.delete)(wrong)
                    ctx.check(False, "kd:wrong-dimension-accepted", f"{name} {wrong}")
                except ValueError:
                    ctx.fault("wrong_dimension")
                ctx.check(contents(tree.root, Counter()) == before, "kd:rejected-op-changed-tree", str(op))
        if name == "ins":
            tree.insert(p)
            model[p] += 1
        elif name == "del":
            tree.delete(p)
            if model[p] > 0:
                model[p] -= 1
            model += Counter()
        elif name == "near":
            got = tree.nearest_neighbor(p)
            if not model:
                ctx.check(got is None, "kd:nearest-empty", str(got))
            else:
                best = min(d2(q, p) for q in model)
                ctx.check(got in model and d2(got, p) == best, "kd:nearest", lambda: f"{got} for {p}; best is {best}")
        else:
            k = op[2]
            got = tree.k_nearest_neighbors(p, k)
            exp = sorted(d2(q, p) for q, c in model.items() for _ in range(c))[:k]
            ctx.check([d2(q, p) for q in got] == exp, "kd:k-nearest", lambda: f"{got} for {p}, k={k}; distances {exp}")
            c = Counter(tuple(q) for q in got)
            ctx.check(all(model[q] >= n for q, n in c.items()), "kd:k-nearest-foreign", str(got))
        have = contents(tree.root, Counter())
        ctx.check(have == model, "kd:contents", lambda: f"after {op}: extra {have - model}, missing {model - have}")
        n, depth = walk(ctx, tree.root, [-inf] * dim, [inf] * dim, 0, dim)
        ctx.event(name, p, n, depth)
        ctx.state(n, depth, name, max(model.values(), default=0) > 1)
