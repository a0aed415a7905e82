"""C04: a surface answers from its current state and shares it with nobody."""
from props._surfsim import gen_history, run_history
from props._util import base_env

PROP = "C04"
LEVEL = "exploration"
CONFIGS = ["edits", "copies", "arrays", "memory"]
PLAN = {"quick": {"seeds": 1600, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 600}}
STATES = "distinct (operation, outcome, degrees/sizes of the newest surfaces) tuples"
REAL = ["mmcore.geom.nurbs.NURBSSurface", "mmcore.geom.parametric.ParametricSurface"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["views returned by control_points_w are not written through", "weights are positive",
               "knots assigned by the caller are a valid clamped vector"]

EDITS = [("knots", 3), ("degree", 2), ("insert", 3), ("normalize", 3), ("bad", 2)]
COPIES = [("copy", 4), ("ccopy", 2), ("deepcopy", 2), ("pickle", 2), ("split", 2), ("subdivide", 1), ("decompose", 1)]
ARRAYS = [("read", 7), ("scribble", 6), ("view", 3), ("drop", 2)]


def generate(rng, config):
    w = {"edits": EDITS + [("read", 6), ("copy", 1)], "copies": EDITS + COPIES + [("view", 2), ("drop", 2)],
         "arrays": EDITS + ARRAYS + [("new", 2), ("copy", 2), ("ruled", 1)], "memory": EDITS + COPIES + [("read", 3), ("iso", 1)]}[config]
    return {"env": base_env(rng), "ops": gen_history(rng, w, rng.choice([4, 8, 16, 30]), 0.3 if config == "memory" else 0.0)}


def execute(case, ctx):
    run_history(case, ctx, {"state", "isolation"})
