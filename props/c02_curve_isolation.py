"""C02: curves share nothing with each other, with their copies, or with the arrays their callers hold."""
from props._curvesim import gen_history, run_history
from props._util import base_env

PROP = "C02"
LEVEL = "exploration"
CONFIGS = ["copies", "arrays", "mixed", "memory"]
PLAN = {"quick": {"seeds": 1600, "seconds": 40}, "thorough": {"seeds": 100000, "seconds": 600}}
STATES = "distinct (operation, outcome, degrees/sizes/period flags of the newest curves) tuples"
REAL = ["mmcore.geom.nurbs.NURBSCurve", "mmcore.geom.curves.knot"]
STUB = ["numpy's array makers where an allocation is made to fail"]
ASSUMPTIONS = ["the low-level attributes _control_points, _knots and _degree are not written directly"]

COPIES = [("copy", 4), ("deepcopy", 2), ("ccopy", 3), ("pickle", 2), ("serialize", 2), ("split2", 1), ("split", 1), ("trim", 1),
          ("reverse", 1), ("flip", 1), ("decompose", 1), ("elevate", 1), ("join", 1)]
EDITS = [("points", 3), ("weights", 3), ("knots", 2), ("normalize", 2), ("insert", 2), ("set", 1), ("periodic", 1), ("open", 1)]
ARRAYS = [("read", 6), ("scribble", 7)]


def generate(rng, config):
    w = {"copies": COPIES + EDITS + [("read", 2)], "arrays": EDITS + ARRAYS + [("copy", 1), ("new", 1)],
         "mixed": COPIES + EDITS + ARRAYS + [("new", 2), ("bad", 1)], "memory": COPIES + EDITS + [("scribble", 2)]}[config]
    n = rng.choice([4, 8, 16, 30])
    return {"env": base_env(rng), "ops": gen_history(rng, w, n, 0.3 if config == "memory" else 0.0)}


def execute(case, ctx):
    run_history(case, ctx, {"isolation"})
