"""C05: reshaping a surface, and taking curves from it or building it on curves, keeps the points."""
from props._surfsim import gen_history, run_history
from props._util import base_env

PROP = "C05"
LEVEL = "exploration"
CONFIGS = ["chains", "chains", "memory"]
PLAN = {"quick": {"seeds": 1600, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 600}}
STATES = "distinct (operation, outcome, degrees/sizes of the newest surfaces) tuples"
REAL = ["mmcore.geom.nurbs.NURBSSurface", "mmcore.construction.ruled", "mmcore.numeric.intersection.ssx.boundary_intersection"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["weights are positive", "interior knots repeat at most degree times and cuts keep a relative distance of 1e-6 from other knots"]

OPS = [("insert", 5), ("normalize", 2), ("split", 4), ("subdivide", 2), ("decompose", 2), ("iso", 4), ("boundary", 1), ("ruled", 2),
       ("knots", 1), ("degree", 1), ("new", 1), ("copy", 1)]


def generate(rng, config):
    return {"env": base_env(rng), "ops": gen_history(rng, OPS, rng.choice([2, 4, 8, 14]), 0.3 if config == "memory" else 0.0)}


def execute(case, ctx):
    run_history(case, ctx, {"shape"})
