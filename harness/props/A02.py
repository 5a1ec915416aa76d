"""A02 matrix-based probabilistic linear solvers (spec/LinSolve.tla)."""
from . import _linsolve
from ._thin import thin

ASSUMPTIONS = ["stopping decisions are compared away from exact ties", "actions that carry no information are only replayed when they are zero"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 20
INV = ["Consistency", "OrderFree", "SymStays", "OnlyLastStops", "Steps", "Emit"]
CRITS = "{\"max\", \"res\", \"rel\", \"tight\", \"con\", \"conr\", \"and\", \"not\"}"


def tlc_runs(tier, seed):
    q = tier == "quick"
    base = dict(module="LinSolve", init="Init", next_="Next", invariants=INV, timeout=1800)
    const = dict(Crits=CRITS, Systems="{1, 2, 3, 5, 6, 7, 8}", MaxSteps=4 if q else 5)
    return [dict(name="conjugate-gradients", filter=thin(400 if q else 100000), **base, constants=dict(Kinds="{\"mat\", \"sym\"}", Policies="{\"cg\"}", **const)),
            dict(name="scripted", filter=thin(700 if q else 100000), simulate=1500 if q else 60000, depth=14, seed=seed, **base,
                 constants=dict(Kinds="{\"mat\", \"sym\"}", Policies="{\"unit\", \"script\"}", **const))]


def replay(case, ctx):
    return _linsolve.replay(case, ctx)
