"""G05 particle filtering: weights, resampling rule and continuation (spec/Particle.tla)."""
ASSUMPTIONS = ["three particles; exact integer moves and power-of-two likelihoods in the traces validated by TLC",
               "the optimal-proposal weights are checked for linear Gaussian measurements"]
BUDGET_S = {"quick": 240, "thorough": 2000}
CASE_LIMIT_S = 60
TRACE_MODULE = "Particle"
TRACE_CONSTANTS = dict(NP=3, MaxLoc=1)
INV = ["Normalised", "AlwaysMeansEqual", "EssBound", "EmitInv"]


def thin(n):
    def f(emitted):
        import json

        uniq = sorted({json.dumps(e, sort_keys=True) for e in emitted})
        return [json.loads(s) for s in uniq[:: max(1, len(uniq) // n)]]
    return f


def tlc_runs(tier, seed):
    q = tier == "quick"
    return [dict(name="exhaustive-1", module="Particle", constants=dict(NP=3, MaxLoc=1), invariants=INV,
                 filter=thin(60 if q else 10000)),
            dict(name="exhaustive-2", module="Particle", constants=dict(NP=3, MaxLoc=2), invariants=INV,
                 filter=thin(70 if q else 3000), timeout=900),
            dict(name="simulate-4", module="Particle", constants=dict(NP=3, MaxLoc=4), invariants=INV,
                 simulate=80 if q else 4000, depth=8, seed=seed)]


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum import filtsmooth, problems, randprocs, randvars

    D = randprocs.markov.discrete
    PF = filtsmooth.particle
    steps, th, res = case["steps"], case["th"], case["res"]
    at0 = steps[0]["at0"]
    locs = np.arange(len(steps), dtype=float) + (0.0 if at0 else 1.0)
    move = {"stay": (1.0, 0.0), "flip": (-1.0, 2.0), "up": (1.0, 1.0)}
    # the move into location n starts at location n - 1 (or at the initial time)
    dyn = {}
    prev = 0.0
    for s, t in zip(steps, locs):
        if t > prev or not at0:
            dyn[prev] = move[s["move"]]
        prev = t
    shift = {t: float(s["shift"]) for s, t in zip(steps, locs)}
    exact = D.LinearGaussian(
        input_dim=1, output_dim=1, transition_matrix_fun=lambda t: np.array([[dyn[float(t)][0]]]),
        noise_fun=lambda t: randvars.Constant(np.array([dyn[float(t)][1]])))
    meas = D.LinearGaussian(
        input_dim=1, output_dim=1, transition_matrix_fun=lambda t: np.eye(1),
        noise_fun=lambda t: randvars.Normal(np.array([shift[float(t)]]), np.array([[1.0 / (2.0 * np.log(2.0))]])))
    data = np.array([[float(s["y"])] for s in steps])
    prob = problems.TimeSeriesRegressionProblem(observations=data, locations=locs, measurement_models=[meas] * len(locs))
    label = "%s threshold %s resampling %s" % (steps, th, res)
    for k in range(2 if ctx.tier == "quick" else 6):
        rng = np.random.default_rng(zlib.crc32(label.encode()) + 7919 * k + ctx.seed)
        init = randvars.Categorical(support=np.array([[0.0], [1.0], [2.0]]), probabilities=np.array([0.25, 0.5, 0.25]))
        pr = randprocs.markov.MarkovSequence(initarg=0.0, initrv=init, transition=exact)
        pf = PF.ParticleFilter(pr, importance_distribution=PF.BootstrapImportanceDistribution(exact), num_particles=3, rng=rng,
                               with_resampling=res, resampling_percentage_threshold=th[0] / th[1])
        post, infos = pf.filter(prob)
        ctx.check(len(post.states) == len(steps) and np.array_equal(post.locations, locs), "one-state-per-location", label)
        ctx.count("runs")
        events = []
        for st in post.states:
            p = np.asarray(st.probabilities, dtype=float)
            x = np.asarray(st.support, dtype=float).reshape(-1)
            ctx.check(p.shape == (3,) and abs(p.sum() - 1.0) < 1e-9 and np.all(p >= 0), "weights-normalised", lambda: "%s: %r" % (label, p))
            if np.min(p) < 2.0 ** -35 * np.max(p):
                break
            e = np.log2(np.max(p) / p)
            ei = np.rint(e)
            ok = np.all(np.abs(e - ei) < 1e-3) and np.all(np.abs(x - np.rint(x)) < 1e-3)
            events.append({"pos": [int(v) for v in np.rint(x)], "e": [int(v) for v in ei] if ok else [-1, -1, -1]})
        if events:
            ctx.trace("%08x-%d" % (zlib.crc32(label.encode()), k), {"steps": steps[: len(events)], "th": th, "res": res}, events)
    # optimal proposal: w_k(i) is proportional to w_{k-1}(i) p(y_k | x_{k-1}(i)); no resampling, so ancestors are known
    noisy = D.LinearGaussian(
        input_dim=1, output_dim=1, transition_matrix_fun=lambda t: np.array([[dyn[float(t)][0]]]),
        noise_fun=lambda t: randvars.Normal(np.array([dyn[float(t)][1]]), np.array([[0.5]])))
    init = randvars.Normal(np.ones(1), np.eye(1))
    pr = randprocs.markov.MarkovSequence(initarg=0.0, initrv=init, transition=noisy)
    R = 1.0 / (2.0 * np.log(2.0))
    kinds = ("bootstrap", "ekf", "ukf")
    if ctx.tier == "quick":  # one proposal per behaviour
        pick = zlib.crc32(label.encode()) % 3
        kinds = kinds[pick:pick + 1]
    for kind in kinds:
        imp = {"bootstrap": lambda: PF.BootstrapImportanceDistribution(noisy),
               "ekf": lambda: PF.LinearizationImportanceDistribution.from_ekf(noisy),
               "ukf": lambda: PF.LinearizationImportanceDistribution.from_ukf(noisy)}[kind]()
        rng = np.random.default_rng(zlib.crc32(label.encode()) + ctx.seed)
        pf = PF.ParticleFilter(pr, importance_distribution=imp, num_particles=5, rng=rng, with_resampling=False)
        post, _ = pf.filter(prob)
        old_x, old_p = None, None
        for n, st in enumerate(post.states):
            x, p = np.asarray(st.support).reshape(-1), np.asarray(st.probabilities)
            y, c = data[n, 0], shift[locs[n]]
            if n > 0:
                a, b = dyn[locs[n - 1]]
                if kind == "bootstrap":
                    r = -0.5 * (y - c - x) ** 2 / R
                else:
                    r = -0.5 * (y - c - a * old_x - b) ** 2 / (0.5 + R)
                gap = np.log(p) - np.log(old_p) - r
                good = (p > 1e-9) & (old_p > 1e-9)
                ctx.check(np.ptp(gap[good]) < 1e-3 if good.sum() > 1 else True, "proposal-weights-" + kind,
                          lambda: "%s location %d: %r" % (label, n, gap))
            elif at0 and kind == "bootstrap":
                gap = np.log(p) + 0.5 * (y - c - x) ** 2 / R
                ctx.check(np.ptp(gap) < 1e-6, "first-weights-bootstrap", lambda: "%s: %r" % (label, gap))
            elif at0:
                ctx.check(np.ptp(np.log(p)) < 1e-6, "first-weights-" + kind, lambda: "%s: %r" % (label, p))
            old_x, old_p = x, p
    ctx.sample = label
