"""C01: a curve answers from its current state after every edit, refused edit and failed edit."""
from props._curvesim import gen_history, run_history
from props._util import base_env

PROP = "C01"
LEVEL = "exploration"
CONFIGS = ["edits", "edits", "failures", "memory"]
PLAN = {"quick": {"seeds": 1600, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 600}}
STATES = "distinct (operation, outcome, degrees/sizes/period flags of the newest curves) tuples"
REAL = ["mmcore.geom.nurbs.NURBSCurve", "mmcore.geom.parametric"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["the low-level attributes _control_points, _knots and _degree are not written directly",
               "knots assigned by the caller are a valid clamped vector for the degree", "weights are positive"]

EDITS = [("read", 6), ("points", 3), ("nudge", 3), ("weights", 3), ("knots", 3), ("set", 2), ("normalize", 2), ("redegree", 1), ("insert", 3),
         ("periodic", 1), ("open", 1), ("copy", 1), ("split2", 1), ("new", 1)]


def generate(rng, config):
    w = list(EDITS)
    if config != "edits":
        w += [("bad", 4)]
    n = rng.choice([4, 8, 16, 30])
    return {"env": base_env(rng), "ops": gen_history(rng, w, n, 0.35 if config == "memory" else 0.0)}


def execute(case, ctx):
    run_history(case, ctx, {"state"})
