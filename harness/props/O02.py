"""O02 step-size control, isolation of rejected steps, dense output of perturbed solvers (spec/OdeLoop.tla)."""
from ._thin import thin

ASSUMPTIONS = ["times on a dyadic grid; error estimates are powers 2^(-k(order+1)) so that step-size changes are exact",
               "dense output is checked in the middle of every step"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["Tiling", "StopsAreHit", "AttemptsStayInside", "RejectionsShrink", "NoTraceOfRejections", "ExactSolution", "EmitInv"]


def tlc_runs(tier, seed):
    q = tier == "quick"
    return [dict(name="exhaustive-3", module="OdeLoop", invariants=INV, filter=thin(2500 if q else 30000), timeout=900,
                 constants=dict(MaxAtt=4 if q else 5, Kinds="{\"exact\", \"perturbed\"}", Ts="{8}", Firsts="{4}", StopSets="{1, 5}", Cbs="{\"none\", \"jump\"}")),
            dict(name="simulate", module="OdeLoop", invariants=INV, simulate=4000 if q else 20000, depth=20, seed=seed,
                 filter=lambda em: [e for e in em if len(e["acc"]) > 1],
                 constants=dict(MaxAtt=18, Kinds="{\"exact\", \"perturbed\"}", Ts="{8, 16}", Firsts="{2, 4}", StopSets="{1, 3}", Cbs="{\"none\", \"jump\"}"))]


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum import diffeq
    from . import _ode as O

    label = repr(case["cfg"]) + " attempts " + " ".join("%d+%d%sx%s" % (a["t"], a["dt"], "" if a["k"] > 0 else "!", a["c2"] / 2.0) for a in case["att"])
    h = zlib.crc32(label.encode())
    t0 = [0.0, -1.0, 2.0][h % 3]
    if case["cfg"]["kind"] == "perturbed":
        kinds = ["perturbed-RK23", "perturbed-RK45"]
        if ctx.tier == "quick":
            kinds = [kinds[h // 7 % 2]]
    else:
        kinds = ["own", "RK23", "RK45", "filter"]
        if ctx.tier == "quick":
            kinds = ["own", kinds[1 + h // 7 % 3]]
    first = case["cfg"]["first"]
    for kind in kinds:
        ivp = O.problem(case, t0)
        log = O.Log(case["att"])
        name = kind + " " + label
        if kind == "own":
            order = [1, 2, 4][h // 5 % 3]
            solver = O.own_solver(log, O.adaptive_rule(log, first, order, scripted_norm=False), order=order)
        elif kind == "filter":
            q = 1 + h // 5 % 2
            diff = lambda: [None, __import__("probnum").randprocs.markov.continuous.ConstantDiffusion()][h // 17 % 2]
            solver = O.filter_solver(log, O.adaptive_rule(log, first, q), ivp, q=q, strategy=["EK0", "EK1"][h // 19 % 2], diffusion=diff())
        else:
            m = kind[-4:]
            order = {"RK23": 3, "RK45": 5}[m]
            rule = O.adaptive_rule(log, first, order)
            solver = O.rk_solver(log, rule, m) if kind == m else O.perturbed_solver(log, rule, m)
        failed = False
        cbs = O.callbacks(case, []) if kind != "filter" else None
        try:
            sol = solver.solve(ivp, stop_at=O.stops_of(case, t0, 0), callbacks=cbs)
        except RuntimeError:
            failed = True
        except O.TooManyAttempts as exc:
            ctx.fail("too-many-attempts", "%s: %s" % (name, exc))
            continue
        ctx.count("runs")
        ctx.check(failed == (case["end"] == "failed"), "step-bounds-error", lambda: "%s: raised %r" % (name, failed))
        want_att = [(t0 + a["t"] * O.TICK, a["dt"] * O.TICK) for a in case["att"]]
        ctx.check(len(log.seen) == len(want_att) and np.allclose(log.seen, want_att, rtol=0, atol=1e-9), "suggested-steps",
                  lambda: "%s: attempted %r" % (name, [((a - t0) / O.TICK, b / O.TICK) for a, b in log.seen]))
        if failed:
            continue
        if kind == "filter":
            # the same accepted steps without the rejections
            good = [a for a in case["att"] if a["k"] > 0]
            log2 = O.Log(good)
            rule2 = O.script_rule(log2, good[0]["dt"])
            rule2.suggest = lambda laststep, scaled_error, localconvrate=None: (
                good[log2.n]["dt"] * O.TICK if log2.n < len(good) else laststep)
            ref = O.filter_solver(log2, rule2, ivp, q=q, strategy=["EK0", "EK1"][h // 19 % 2], diffusion=diff()).solve(ivp)
            same = len(sol.states) == len(ref.states) and all(
                np.allclose(a.mean, b.mean, rtol=1e-7, atol=1e-9) and np.allclose(a.cov, b.cov, rtol=1e-6, atol=1e-10)
                for a, b in zip(sol.kalman_posterior.states, ref.kalman_posterior.states))
            ctx.check(same, "rejections-leave-no-trace", lambda: "%s: %r vs %r" % (name, [np.round(s.mean, 6) for s in sol.states], [np.round(s.mean, 6) for s in ref.states]))
            continue
        want_y = np.array([[0, 5]] + [a["y"] for a in case["acc"]], dtype=float)
        got_y = np.array([np.asarray(s.mean, dtype=float) for s in sol.states]) / O.UNIT
        scale = 1.0 + np.max(np.abs(want_y))
        old, oldmids = (None, None) if kind == "own" else O.stale(case, t0, kind[-4:])
        O.compare(ctx, got_y, want_y, old, scale, "rejections-leave-no-trace", lambda: "%s: %r, expected %r" % (name, got_y.tolist(), want_y.tolist()))
        if kind == "own":
            continue
        prev = 0
        mids, wants, olds = [], [], []
        for i, a in enumerate(case["acc"]):
            if a["mid"]:
                mids.append(t0 + 0.5 * (prev + a["t"]) * O.TICK)
                wants.append(a["mid"])
                olds.append(oldmids[i])
            prev = a["t"]
        for tm, want, om in zip(mids, wants, olds):
            got = np.asarray(sol(tm).mean, dtype=float).reshape(-1) / O.UNIT
            O.compare(ctx, got, want, om, scale, "dense-output",
                      lambda: "%s at tick %r: %r, expected %r" % (name, (tm - t0) / O.TICK, got, want))
        if mids:
            many = sol(np.array(mids))
            got = np.array([np.asarray(r.mean, dtype=float) for r in many]) / O.UNIT
            O.compare(ctx, got, wants, np.array(olds), scale, "dense-output-array", lambda: "%s: %r" % (name, got))
    # the error norm of the library's rule
    rng = np.random.default_rng(h)
    e, r = rng.integers(-4, 5, size=3) * 1.0, rng.integers(-4, 5, size=3) * 1.0
    atol, rtol = [0.5, 2.0][h % 2], [0.25, 1.0][h // 2 % 2]
    rule = diffeq.stepsize.AdaptiveSteps(firststep=1.0, atol=atol, rtol=rtol)
    want = np.sqrt(np.mean((e / (atol + rtol * np.abs(r))) ** 2))
    ctx.check(np.isclose(rule.errorest_to_norm(e, r), want), "error-norm", lambda: "error %r reference %r: %r, expected %r" % (e, r, rule.errorest_to_norm(e, r), want))
    ctx.sample = label
