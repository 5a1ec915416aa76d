"""O01 the ODE solution loop: tiling, stop locations, callbacks (spec/OdeLoop.tla)."""
from ._thin import thin

ASSUMPTIONS = ["times on a dyadic grid, so that the specification's integers are exact in floating point",
               "a rejected attempt suggests a smaller step"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["Tiling", "StopsAreHit", "AttemptsStayInside", "RejectionsShrink", "NoTraceOfRejections", "ExactSolution", "EmitInv"]
ALL = dict(StopSets="{1, 2, 3, 4, 5, 6, 7}", Cbs="{\"none\", \"jump\", \"double-jump\"}")


def tlc_runs(tier, seed):
    q = tier == "quick"
    return [dict(name="exhaustive-3", module="OdeLoop", invariants=INV, filter=thin(2500 if q else 30000), timeout=900,
                 constants=dict(MaxAtt=4 if q else 5, Kinds="{\"exact\"}", Ts="{8}", Firsts="{4, 16}", **ALL)),
            dict(name="simulate", module="OdeLoop", invariants=INV, simulate=2500 if q else 20000, depth=20, seed=seed,
                 constants=dict(MaxAtt=18, Kinds="{\"exact\"}", Ts="{8, 12, 16}", Firsts="{2, 3, 4, 16}", **ALL))]


def replay(case, ctx):
    import zlib

    import numpy as np
    from . import _ode as O

    label = repr(case["cfg"]) + " attempts " + " ".join("%d+%d%s" % (a["t"], a["dt"], "" if a["k"] > 0 else "!") for a in case["att"])
    h = zlib.crc32(label.encode())
    t0 = [0.0, -1.0, 2.0][h % 3]
    kinds = ["own", "rk23", "rk45", "perturbed", "filter"]
    if ctx.tier == "quick":
        kinds = ["own", kinds[1 + (h // 7) % 4]]
    for kind in kinds:
        ivp = O.problem(case, t0)
        log = O.Log(case["att"])
        rule = O.script_rule(log, case["cfg"]["first"])
        solver = {"own": lambda: O.own_solver(log, rule), "rk23": lambda: O.rk_solver(log, rule, "RK23"),
                  "rk45": lambda: O.rk_solver(log, rule, "RK45"), "perturbed": lambda: O.perturbed_solver(log, rule, "RK23"),
                  "filter": lambda: O.filter_solver(log, rule, ivp)}[kind]()
        calls = []
        cbs = O.callbacks(case, calls) if kind != "filter" else None
        seen, failed, times, values = [], False, [], []
        name = kind + " " + label
        try:
            for state in solver.solution_generator(ivp, stop_at=O.stops_of(case, t0, h // 11), callbacks=cbs):
                times.append(float(state.t))
                values.append(np.array(state.rv.mean, dtype=float))
        except RuntimeError:
            failed = True
        except O.TooManyAttempts as exc:
            ctx.fail("too-many-attempts", "%s: %s" % (name, exc))
            continue
        ctx.count("runs")
        ctx.check(failed == (case["end"] == "failed"), "step-bounds-error", lambda: "%s: raised %r" % (name, failed))
        want_att = [(t0 + a["t"] * O.TICK, a["dt"] * O.TICK) for a in case["att"]]
        ctx.check(len(log.seen) == len(want_att) and np.allclose(log.seen, want_att, rtol=0, atol=1e-9), "attempted-steps",
                  lambda: "%s: attempted %r" % (name, [((a - t0) / O.TICK, b / O.TICK) for a, b in log.seen]))
        want_t = [t0] + [t0 + a["t"] * O.TICK for a in case["acc"]]
        ctx.check(len(times) == len(want_t) and np.allclose(times, want_t, rtol=0, atol=1e-9), "solution-times",
                  lambda: "%s: times %r" % (name, [(t - t0) / O.TICK for t in times]))
        if kind == "filter":
            continue
        want_y = np.array([[0, 5]] + [a["y"] for a in case["acc"]], dtype=float)
        got_y = np.array(values) / O.UNIT
        scale = 1.0 + np.max(np.abs(want_y))
        old = None if kind == "own" else O.stale(case, t0, "RK45" if kind == "rk45" else "RK23")[0][:len(want_y)]
        O.compare(ctx, got_y, want_y, old, scale, "solution-values", lambda: "%s: values %r, expected %r" % (name, got_y.tolist(), want_y.tolist()))
        if cbs is not None:
            per = 2 if isinstance(cbs, list) else 1
            ctx.check(len(calls) == per * len(case["acc"]), "callbacks-see-every-accepted-state", lambda: "%s: %r" % (name, calls))
        if not failed and kind != "filter":
            # the solution object holds the same grid and states
            log.n, log.seen = 0, []
            sol = solver.solve(ivp, stop_at=O.stops_of(case, t0, h // 13), callbacks=O.callbacks(case, calls))
            ctx.check(len(sol.states) == len(want_t) and np.allclose(sol.locations, want_t, rtol=0, atol=1e-9), "solution-locations",
                      lambda: "%s: %r" % (name, sol.locations))
            got = np.array([np.asarray(s.mean, dtype=float) for s in sol.states]) / O.UNIT
            O.compare(ctx, got, want_y, old, scale, "solution-states", lambda: "%s: %r" % (name, got.tolist()))
    ctx.sample = label
