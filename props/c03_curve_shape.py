"""C03: reshaping a curve (knot insertion, splitting, trimming, reversing, elevating, joining) keeps its points."""
from props._curvesim import gen_history, run_history
from props._util import base_env

PROP = "C03"
LEVEL = "exploration"
CONFIGS = ["chains", "chains", "memory"]
PLAN = {"quick": {"seeds": 1600, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 600}}
STATES = "distinct (operation, outcome, degrees/sizes/period flags of the newest curves) tuples"
REAL = ["mmcore.geom.nurbs.NURBSCurve", "mmcore.geom.nurbs.split_curve/split_curve2/decompose_curve/reverse_curve", "mmcore.geom.curves.knot"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["weights are positive", "interior knots repeat at most degree times and cuts keep a relative distance of 1e-6 from other knots"]

OPS = [("insert", 5), ("normalize", 2), ("split", 2), ("split2", 3), ("trim", 4), ("reverse", 2), ("flip", 2), ("decompose", 2),
       ("elevate", 2), ("join", 2), ("weights", 1), ("new", 1), ("redegree", 1), ("knots", 1)]


def generate(rng, config):
    n = rng.choice([2, 4, 8, 14])
    return {"env": base_env(rng), "ops": gen_history(rng, OPS, n, 0.3 if config == "memory" else 0.0)}


def execute(case, ctx):
    run_history(case, ctx, {"shape"})
