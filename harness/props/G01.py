"""G01 the Kalman filter and smoother compute the exact posterior marginals (spec/StateSpace.tla)."""
import itertools
import zlib

ASSUMPTIONS = ["linear Gaussian models with positive definite prior, process and measurement noise",
               "strictly increasing locations starting at or after the prior's initial argument"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 90
INV = ["FilterIsPosterior", "SmootherIsPosterior", "CovariancesValid", "SmoothingShrinks", "EmitInv"]


def tlc_runs(tier, seed):
    runs = []
    for fam in ("lti", "tv", "iwp", "iwp2", "sde"):
        runs.append(dict(name="exhaustive-2-" + fam, module="StateSpace", constants=dict(Family=fam, MaxLoc=2),
                         invariants=INV))
        if tier == "thorough":
            runs.append(dict(name="exhaustive-3-" + fam, module="StateSpace", constants=dict(Family=fam, MaxLoc=3),
                             invariants=INV, timeout=1500))
        for n in (3, 6, 10):
            runs.append(dict(name="simulate-%d-%s" % (n, fam), module="StateSpace",
                             constants=dict(Family=fam, MaxLoc=n), invariants=INV,
                             simulate=25 if tier == "quick" else 1500, depth=2 * n + 4, seed=seed))
    return runs


FWD = ("classic", "sqrt")
BWD = ("classic", "sqrt", "joseph")


def prior(case, fwd, bwd):
    import numpy as np
    from probnum import randprocs, randvars
    from props._gauss import mat

    mod = case["mod"]
    init = randvars.Normal(mat(mod["m0"])[:, 0], mat(mod["P0"]))
    name = mod["name"]
    markov = randprocs.markov
    if name.startswith("iwp"):
        q = mod["d"] - 1
        return markov.integrator.IntegratedWienerProcess(
            initarg=0.0, num_derivatives=q, wiener_process_dimension=1, initrv=init,
            forward_implementation=fwd, backward_implementation=bwd)
    if name in ("nil2", "lin1"):
        from props.G02 import build
        return markov.MarkovProcess(initarg=0.0, initrv=init, transition=build(name, fwd, bwd))
    table = {}
    for st in case["steps"]:
        if st["h"]:
            table[st["tau"]] = (mat(st["A"]), randvars.Normal(mat(st["s"])[:, 0], mat(st["Q"])))
    if name.startswith("lti"):
        if not table:
            A, noise = np.eye(mod["d"]), randvars.Normal(np.zeros(mod["d"]), np.eye(mod["d"]))
        else:
            A, noise = next(iter(table.values()))
        tr = markov.discrete.LTIGaussian(transition_matrix=A, noise=noise, forward_implementation=fwd,
                                         backward_implementation=bwd)
    else:
        tr = markov.discrete.LinearGaussian(
            input_dim=mod["d"], output_dim=mod["d"],
            transition_matrix_fun=lambda t: table[int(round(t))][0],
            noise_fun=lambda t: table[int(round(t))][1], forward_implementation=fwd, backward_implementation=bwd)
    return markov.MarkovSequence(initarg=0.0, initrv=init, transition=tr)


def unit(case):
    """length of a time unit of the specification"""
    return 0.5 if case["mod"]["name"].startswith(("iwp", "nil", "lin")) else 1.0


def tolerance(case):
    return 1e-4 if case["mod"]["name"] == "lin1" else 1e-6


def measmods(case, fwd, bwd):
    from probnum import randprocs, randvars
    from props._gauss import mat

    D = randprocs.markov.discrete
    out = []
    d = case["mod"]["d"]
    u = unit(case)
    by_loc = {t: m for t, m in zip(case["locs"], case["meas"]) if m["k"] == "tvm"}
    for m in case["meas"]:
        H, R, c = mat(m["H"]), mat(m["R"]), mat(m["c"])[:, 0]
        if m["k"] == "tvm":
            out.append(D.LinearGaussian(
                input_dim=d, output_dim=H.shape[0],
                transition_matrix_fun=lambda t: mat(by_loc[int(round(t / u))]["H"]),
                noise_fun=lambda t: randvars.Normal(mat(by_loc[int(round(t / u))]["c"])[:, 0],
                                                    mat(by_loc[int(round(t / u))]["R"])),
                forward_implementation=fwd, backward_implementation=bwd))
        else:
            out.append(D.LTIGaussian(transition_matrix=H, noise=randvars.Normal(c, R),
                                     forward_implementation=fwd, backward_implementation=bwd))
    return out


def oracle(case):
    """(chain, index of each location)"""
    from props._gauss import Chain, mat

    mod = case["mod"]
    ch = Chain(mat(mod["m0"])[:, 0], mat(mod["P0"]))
    idx = []
    for st, m in zip(case["steps"], case["meas"]):
        i = ch.n - 1
        if st["h"]:
            i = ch.step(mat(st["A"]), mat(st["s"])[:, 0], mat(st["Q"]))
        ch.observe(i, mat(m["H"]), mat(m["c"])[:, 0], mat(m["R"]), mat({"m": m["y"], "d": 1})[:, 0])
        idx.append(i)
    return ch, idx


def replay(case, ctx):
    import numpy as np
    from probnum import filtsmooth, problems
    from props._gauss import close, known, mat

    ch, idx = oracle(case)
    n = len(idx)
    want_f = [ch.part(ch.posterior(upto=k + 1), idx[k]) for k in range(n)]
    full = ch.posterior()
    want_s = [ch.part(full, i) for i in idx]
    # the specification's exact beliefs, where they fit its integers, agree with the batch semantics
    for k in range(n):
        for b, w in ((case["filt"][k], want_f[k]), (case["smth"][k], want_s[k])):
            if known(b):
                ctx.count("exact-beliefs")
                assert close(mat(b["m"])[:, 0], w[0]) and close(mat(b["P"]), w[1]), "oracle"
    locs = np.array(case["locs"], dtype=float) * unit(case)
    data = [mat({"m": m["y"], "d": 1})[:, 0] for m in case["meas"]]
    if len({len(x) for x in data}) == 1:
        data = np.array(data)
    what = "%s locations %s measurements %s" % (case["mod"]["name"], case["locs"], [m["k"] for m in case["meas"]])
    combos = [((f, b), (f, b)) for f, b in itertools.product(FWD, BWD)]
    cross = [(x, y) for x in itertools.product(FWD, BWD) for y in itertools.product(FWD, BWD) if x != y]
    combos += [cross[zlib.crc32(what.encode()) % len(cross)]]
    tol = tolerance(case)
    if case["mod"]["name"] == "lin1":
        combos = [c for c in combos if c[0][1] == "classic" and c[0][0] == c[1][0]]
    for p_impl, m_impl in combos:
        pr = prior(case, *p_impl)
        mm = measmods(case, *m_impl)
        prob = problems.TimeSeriesRegressionProblem(observations=data, locations=locs, measurement_models=mm)
        kal = filtsmooth.gaussian.Kalman(pr)
        label = "%s prior %s measurement %s" % (what, p_impl, m_impl)
        m0, P0 = pr.initrv.mean.copy(), np.array(pr.initrv.cov)
        fpost, infos = kal.filter(prob)
        spost, _ = kal.filtsmooth(prob)
        again = kal.smooth(fpost)
        ctx.count("runs")
        ctx.check(len(infos) == n, "one-info-per-location", label)
        for name, post, want in (("filter", fpost, want_f), ("smoother", spost, want_s), ("smooth-after-filter", again, want_s)):
            ctx.check(np.array_equal(post.locations, locs) and len(post.states) == n and len(post) == n,
                      name + "-locations", lambda: "%s: %r" % (label, post.locations))
            for k in range(min(n, len(post.states))):
                rv = post.states[k]
                ctx.check(close(rv.mean, want[k][0], tol) and close(rv.cov, want[k][1], tol), name + "-marginal",
                          lambda: "%s: state %d\n got %r %r\n want %r" % (label, k, rv.mean, rv.cov, want[k]))
        for k in range(n):
            rv = spost.filtering_posterior.states[k]
            ctx.check(close(rv.mean, want_f[k][0], tol) and close(rv.cov, want_f[k][1], tol),
                      "filtering-posterior-kept", lambda: "%s: state %d" % (label, k))
        ctx.check(np.array_equal(pr.initrv.mean, m0) and np.array_equal(np.array(pr.initrv.cov), P0),
                  "prior-unchanged", label)
    if n >= 2:
        pr, mm = prior(case, "classic", "classic"), measmods(case, "classic", "classic")
        for bad in (locs[::-1].copy(), np.concatenate([locs[:1], locs[:1], locs[2:]])):
            prob = problems.TimeSeriesRegressionProblem(observations=data, locations=bad, measurement_models=mm)
            try:
                filtsmooth.gaussian.Kalman(pr).filter(prob)
            except ValueError:
                ctx.count("refused")
            else:
                ctx.fail("unsorted-locations-refused", "%s: %r" % (what, bad))
    ctx.sample = what
