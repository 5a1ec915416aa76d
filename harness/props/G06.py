"""G06 nonlinear filtering and smoothing is exact inference in the linearised model (spec/NonlinFilter.tla, Stopping.tla)."""
import zlib

ASSUMPTIONS = ["dynamics and measurements with additive Gaussian noise and positive definite noise covariances",
               "the cubature rule of the unscented filter uses the lower Cholesky factor of the covariance"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 90
INV = ["PosteriorOfLedger", "FilterIsPosterior", "AffineExact", "CovariancesValid", "EmitInv"]
SINV = ["Bounded", "StopsExactly", "RefusalsBounded", "NeverIgnoresSmall", "EmitInv"]


def tlc_runs(tier, seed):
    runs = []
    quick = tier == "quick"
    for dim in (1, 2):
        runs.append(dict(name="exhaustive-1-dim%d" % dim, module="NonlinFilter", constants=dict(Dim=dim, MaxLoc=1),
                         invariants=INV))
        if not quick:
            runs.append(dict(name="exhaustive-2-dim%d" % dim, module="NonlinFilter",
                             constants=dict(Dim=dim, MaxLoc=2), invariants=INV, timeout=1500))
        for n in (2, 3, 5):
            runs.append(dict(name="simulate-%d-dim%d" % (n, dim), module="NonlinFilter",
                             constants=dict(Dim=dim, MaxLoc=n), invariants=INV,
                             simulate=(20 if n == 5 else 40) if quick else 600, depth=2 * n + 4, seed=seed))
    for m in (0, 1, 3):
        runs.append(dict(name="stopping-%d" % m, module="Stopping", constants=dict(MaxIt=m, MaxCalls=9),
                         invariants=SINV, simulate=20 if quick else 300, depth=12, seed=seed))
    return runs


class Quad:
    """c + L x + (x' H_i x)_i"""

    def __init__(self, f):
        import numpy as np
        from props._gauss import mat

        self.np = np
        self.c, self.L, self.H = mat(f["c"])[:, 0], mat(f["L"]), [mat(h) for h in f["H"]]

    def __call__(self, x):
        return self.c + self.L @ x + self.np.array([x @ h @ x for h in self.H])

    def jac(self, x):
        return self.L + 2 * self.np.stack([x @ h for h in self.H])


def linearise(kind, F, m, P):
    """(A, s, extra noise): the specification's Taylor and Cubature operators in floating point"""
    import numpy as np

    A = F.jac(m)
    k = len(F.H)
    s, E = F(m) - A @ m, np.zeros((k, k))
    if kind == "ukf":
        C = np.linalg.cholesky(P)
        q = np.array([[C[:, j] @ h @ C[:, j] for h in F.H] for j in range(len(m))])
        T = q.sum(axis=0)
        s = s + T
        dev = len(m) * q - T
        E = dev.T @ dev / len(m)
    return A, s, E


def sde_step(m, h):
    import numpy as np

    a = m[1]
    return (np.array([[1.0, a * h], [0.0, 1.0]]), np.array([h * (1 - a * a / 2) - a * h * h / 2, -h]),
            np.array([[h + a * a * h ** 3 / 3, a * h * h / 2], [a * h * h / 2, h]]))


class Reference:
    """posterior of the affine ledger obtained by linearising the case's model"""

    def __init__(self, case):
        from props._gauss import mat

        self.case, self.cfg = case, case["cfg"]
        self.m0, self.P0 = mat(case["m0"])[:, 0], mat(case["P0"])
        self.dyn = [Quad(f) for f in case["dynF"]]
        self.Q = [mat(q) for q in case["dynQ"]]
        self.mf = [Quad(f) for f in case["measF"]]
        self.R = [mat(r) for r in case["measR"]]
        self.y = [mat(m["y"])[:, 0] for m in case["meas"]]
        self.n = len(case["locs"])

    def run(self, prev=None):
        """(filter marginals, smoother marginals, affine ledger); prev: list of (mean, cov) per location"""
        from props._gauss import Chain

        ch = Chain(self.m0, self.P0)
        cur, idx, filt, ledger = (self.m0, self.P0), [], [], []
        for i in range(self.n):
            h = self.case["moves"][i]["h"]
            move = None
            if h:
                at = cur if prev is None else ((self.m0, self.P0) if i == 0 else prev[i - 1])
                if self.cfg["dyn"] == "sde":
                    move = sde_step(at[0], h)
                else:
                    A, s, E = linearise(self.cfg["kind"], self.dyn[i], *at)
                    move = (A, s, E + self.Q[i])
                k = ch.step(*move)
                pred = (move[0] @ cur[0] + move[1], move[0] @ cur[1] @ move[0].T + move[2])
            else:
                k, pred = ch.n - 1, cur
            at = pred if prev is None else prev[i]
            H, c, E = linearise(self.case["meas"][i]["kind"], self.mf[i], *at)
            ch.observe(k, H, c, E + self.R[i], self.y[i])
            cur = ch.part(ch.posterior(), k)
            filt.append(cur)
            idx.append(k)
            ledger.append((move, (H, c, E + self.R[i])))
        full = ch.posterior()
        return filt, [ch.part(full, k) for k in idx], ledger


def build(case, ref, impl):
    import numpy as np
    from probnum import filtsmooth, problems, randprocs, randvars

    D = randprocs.markov.discrete
    approx = filtsmooth.gaussian.approx
    d = case["dim"]
    fwd, bwd = impl
    by_t = {t - mv["h"]: i for i, (t, mv) in enumerate(zip(case["locs"], case["moves"])) if mv["h"]}
    if case["cfg"]["dyn"] == "sde":
        sde = randprocs.markov.continuous.SDE(
            state_dimension=2, wiener_process_dimension=2,
            drift_function=lambda t, x: np.array([x[1] ** 2 / 2 + 1, -1.0]),
            dispersion_function=lambda t, x: np.eye(2),
            drift_jacobian=lambda t, x: np.array([[0.0, x[1]], [0.0, 0.0]]))
        tr = approx.ContinuousEKFComponent(sde, mde_atol=1e-8, mde_rtol=1e-8, forward_implementation=fwd)
    else:
        model = D.NonlinearGaussian(
            input_dim=d, output_dim=d,
            transition_fun=lambda t, x: ref.dyn[by_t[int(round(t))]](x),
            transition_fun_jacobian=lambda t, x: ref.dyn[by_t[int(round(t))]].jac(x),
            noise_fun=lambda t: randvars.Normal(np.zeros(d), ref.Q[by_t[int(round(t))]]))
        comp = approx.DiscreteUKFComponent if case["cfg"]["kind"] == "ukf" else approx.DiscreteEKFComponent
        tr = comp(model, forward_implementation=fwd, backward_implementation=bwd)
    init = randvars.Normal(ref.m0, ref.P0)
    cls = randprocs.markov.MarkovProcess if case["cfg"]["dyn"] == "sde" else randprocs.markov.MarkovSequence
    prior = cls(initarg=0.0, initrv=init, transition=tr)
    mms = []
    by_loc = {t: i for i, t in enumerate(case["locs"])}
    for i, m in enumerate(case["meas"]):
        k = len(ref.y[i])
        # the functions of a location depend on the time they are asked for
        fi = lambda t, n=m["k"]: next(ref.mf[j] for t0, j in by_loc.items()
                                      if t0 == int(round(t)) and case["meas"][j]["k"] == n)
        ri = lambda t, n=m["k"]: next(ref.R[j] for t0, j in by_loc.items()
                                      if t0 == int(round(t)) and case["meas"][j]["k"] == n)
        model = D.NonlinearGaussian(
            input_dim=d, output_dim=k, transition_fun=lambda t, x, f=fi: f(t)(x),
            transition_fun_jacobian=lambda t, x, f=fi: f(t).jac(x),
            noise_fun=lambda t, r=ri, k=k: randvars.Normal(np.zeros(k), r(t)))
        comp = approx.DiscreteUKFComponent if m["kind"] == "ukf" else approx.DiscreteEKFComponent
        mms.append(comp(model, forward_implementation=fwd, backward_implementation=bwd))
    locs = np.array(case["locs"], dtype=float)
    y = ref.y
    if len({len(v) for v in y}) == 1:
        y = np.array(y)
    prob = problems.TimeSeriesRegressionProblem(observations=y, locations=locs, measurement_models=mms)
    return prior, prob, mms


def compare(ctx, rvs, want, tol, clause, label):
    from props._gauss import close

    ctx.check(len(rvs) == len(want), clause, label)
    for k in range(min(len(rvs), len(want))):
        rv = rvs[k]
        ctx.check(close(rv.mean, want[k][0], tol) and close(rv.cov, want[k][1], tol), clause,
                  lambda: "%s: state %d\n got %r %r\n want %r" % (label, k, rv.mean, rv.cov, want[k]))


def previous(case, prior, means_covs, locs):
    from probnum import filtsmooth, randvars

    states = [randvars.Normal(m, P) for m, P in means_covs]
    fp = filtsmooth.gaussian.FilteringPosterior(transition=prior.transition, locations=locs, states=states)
    return filtsmooth.gaussian.SmoothingPosterior(filtering_posterior=fp, transition=prior.transition,
                                                  locations=locs, states=states)


def satisfied(err, ref, atol, rtol):
    import numpy as np

    return np.sqrt(np.mean((err / (atol + rtol * np.abs(ref))) ** 2))


def replay_stopping(case, ctx):
    import numpy as np
    from probnum import filtsmooth

    atol, rtol = 0.125, 0.25
    crit = filtsmooth.optim.FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=case["maxit"])
    for n, c in enumerate(case["calls"]):
        refs = c["sign"] * np.array([[1.0, 0.0], [2.0, 0.5]])
        err = (c["size"] / 2) * (atol + rtol * np.abs(refs)) * np.array([[1, -1], [1, 1]])
        try:
            out = "stop" if crit(error=err, reference=refs) else "go"
        except RuntimeError:
            out = "raise"
        ctx.check(out == c["out"], "stopping-decision",
                  lambda: "maxit %d, call %d of %s: got %s" % (case["maxit"], n, case["calls"], out))
        if out != c["out"]:
            return
    ctx.count("stopping")


def replay(case, ctx):
    import numpy as np
    from probnum import filtsmooth, randvars
    from props._gauss import close, known, mat

    if case.get("what") == "stopping":
        return replay_stopping(case, ctx)
    ref = Reference(case)
    prev = [(mat(b["m"])[:, 0], mat(b["P"])) for b in case["prev"]] if case["cfg"]["mode"] == "iter" else None
    filt, smth, ledger = ref.run(prev)
    for k in range(ref.n):
        for b, w in ((case["filt"][k], filt[k]), (case["smth"][k], smth[k])):
            if known(b):
                ctx.count("exact-beliefs")
                assert close(mat(b["m"])[:, 0], w[0]) and close(mat(b["P"]), w[1]), "oracle"
    scale = max(float(np.max(np.abs(np.concatenate([np.ravel(x) for w in filt + smth for x in w])))), 1.0)
    if scale > 1e4:  # the model ran off: no statement about ill-conditioned beliefs
        ctx.count("skipped-large")
        return
    what = "%s dim %d locations %s measurements %s" % (case["cfg"], case["dim"], case["locs"],
                                                       [(m["k"], m["kind"]) for m in case["meas"]])
    sde = case["cfg"]["dyn"] == "sde"
    tol = 1e-5
    impls = [(f, b) for f in ("classic", "sqrt") for b in ("classic", "sqrt", "joseph")]
    first = zlib.crc32(what.encode()) % len(impls)
    impls = [impls[first], impls[(first + 3) % len(impls)]]
    if sde:
        impls = [("classic", "classic"), ("sqrt", "classic")]
    for impl in impls:
        label = "%s %s" % (what, impl)
        prior, prob, mms = build(case, ref, impl)
        kal = filtsmooth.gaussian.Kalman(prior)
        if prev is None:
            fpost, _ = kal.filter(prob)
            spost, _ = kal.filtsmooth(prob)
            compare(ctx, fpost.states, filt, tol, "filter-of-linearised-model", label)
            compare(ctx, spost.states, smth, tol, "smoother-of-linearised-model", label)
            compare(ctx, kal.smooth(fpost).states, smth, tol, "smooth-after-filter", label)
        else:
            pp = previous(case, prior, prev, prob.locations)
            gen = kal.iterated_filtsmooth_posterior_generator(
                prob, init_posterior=pp, stopcrit=filtsmooth.optim.FiltSmoothStoppingCriterion(atol=1e-9, rtol=1e-9))
            start, _ = next(gen)
            compare(ctx, start.states, prev, 1e-12, "iteration-starts-at-given-posterior", label)
            nxt, _ = next(gen)
            compare(ctx, nxt.filtering_posterior.states, filt, tol, "filter-linearised-at-posterior", label)
            compare(ctx, nxt.states, smth, tol, "smoother-linearised-at-posterior", label)
            gen = filtsmooth.optim.GaussNewton(
                kal, filtsmooth.optim.FiltSmoothStoppingCriterion(atol=1e-9, rtol=1e-9)
            ).solution_generator(prob, initial_guess=pp)
            next(gen)
            gn, _ = next(gen)
            compare(ctx, gn.states, smth, tol, "gauss-newton-step", label)
        ctx.count("runs")
        # whole iterations: every yielded posterior is the step from the one before; the run ends exactly when
        # the criterion is met
        maxit = 4
        for solver in (("kalman",) if ref.n <= 2 else ()) if sde else ("kalman", "gauss-newton"):
            atol = 0.25
            crit = filtsmooth.optim.FiltSmoothStoppingCriterion(atol=atol, rtol=0.01, maxit=maxit)
            init = previous(case, prior, prev, prob.locations) if prev is not None else kal.filtsmooth(prob)[0]
            if solver == "kalman":
                gen = kal.iterated_filtsmooth_posterior_generator(
                    prob, init_posterior=init if prev is not None else None, stopcrit=crit)
            else:
                gen = filtsmooth.optim.GaussNewton(kal, crit).solution_generator(prob, initial_guess=init)
            posts, raised = [], False
            try:
                for post, _ in gen:
                    posts.append([(np.array(rv.mean), np.array(rv.cov)) for rv in post.states])
                    if max(np.max(np.abs(m)) + np.max(np.abs(P)) for m, P in posts[-1]) > 1e4:
                        raised = None
                        break
            except RuntimeError as exc:
                if isinstance(exc, NotImplementedError):
                    raise
                raised = True
            if raised is None:
                ctx.count("skipped-diverging")
                continue
            mags = [np.inf]
            for a, b in zip(posts, posts[1:]):
                try:
                    want = ref.run(a)[1]
                except np.linalg.LinAlgError:
                    ctx.count("skipped-singular")
                    break
                ok = all(close(x[0], w[0], 1e-4) and close(x[1], w[1], 1e-4) for x, w in zip(b, want))
                ctx.check(ok, "iterated-step", lambda: "%s %s\n from %r\n got %r\n want %r" % (label, solver, a, b, want))
                new = np.array([m for m, _ in b])
                mags.append(satisfied(new - np.array([m for m, _ in a]), new, atol, 0.01))
            else:
                if all(abs(x - 1) > 1e-3 for x in mags):
                    stop = next((i for i, x in enumerate(mags) if x <= 1), None)
                    if raised:
                        ctx.check(stop in (None, maxit + 1) and len(posts) == maxit + 2, "iteration-bounded",
                                  lambda: "%s %s: gave up after %d posteriors, errors %s" % (label, solver, len(posts), mags))
                    else:
                        ctx.check(stop == len(posts) - 1, "iteration-stops-when-converged",
                                  lambda: "%s %s: %d posteriors, errors %s" % (label, solver, len(posts), mags))
            ctx.count("iterations", len(posts))
        # single updates: forward and backward of the measurement component, and iterated updates
        t = prob.locations[0]
        mm, F, R, y = mms[0], ref.mf[0], ref.R[0], ref.y[0]
        rv = randvars.Normal(ref.m0, ref.P0)
        x = ref.m0 + 1
        out, _ = mm.forward_realization(x, t=t)
        ctx.check(close(out.mean, F(x), tol) and close(out.cov, R, tol), "forward-realization",
                  lambda: "%s: got %r %r want %r %r" % (label, out.mean, out.cov, F(x), R))
        A, s, E = linearise(case["meas"][0]["kind"], F, ref.m0, ref.P0)
        out, _ = mm.forward_rv(rv, t=t)
        ctx.check(close(out.mean, A @ ref.m0 + s, tol) and close(out.cov, A @ ref.P0 @ A.T + E + R, tol), "forward-rv",
                  lambda: "%s: got %r %r" % (label, out.mean, out.cov))
        for start in (None, "given"):
            it = filtsmooth.optim.IteratedDiscreteComponent(
                mm, filtsmooth.optim.FiltSmoothStoppingCriterion(atol=0.05, rtol=0.01, maxit=6))
            lin_at = randvars.Normal(ref.m0 + 0.5, 2 * ref.P0) if start else None
            at = (ref.m0 + 0.5, 2 * ref.P0) if start else (ref.m0, ref.P0)
            want, old, n, mag, fragile = None, None, 0, np.inf, False
            try:
                while True:
                    A, s, E = linearise(case["meas"][0]["kind"], F, *at)
                    S = A @ ref.P0 @ A.T + E + R
                    K = np.linalg.solve(S, A @ ref.P0).T
                    want = (ref.m0 + K @ (y - A @ ref.m0 - s), ref.P0 - K @ A @ ref.P0)
                    if old is not None:
                        mag = satisfied(want[0] - old, want[0], 0.05, 0.01)
                        fragile |= abs(mag - 1) < 1e-3
                    if n > 6:
                        mag = np.inf
                        break
                    if mag <= 1:
                        break
                    n += 1
                    old, at = want[0], want
            except np.linalg.LinAlgError:
                fragile = True
            if fragile:
                continue
            try:
                got, _ = it.backward_realization(y, rv, t=t, _linearise_at=lin_at)
            except RuntimeError as exc:
                if isinstance(exc, NotImplementedError):
                    raise
                ctx.check(mag > 1, "iterated-update-bounded", lambda: "%s: gave up, last error %r" % (label, mag))
            else:
                ctx.check(mag <= 1 and close(got.mean, want[0], 1e-4) and close(got.cov, want[1], 1e-4),
                          "iterated-update", lambda: "%s: got %r %r want %r error %r" % (label, got.mean, got.cov, want, mag))
            ctx.count("iterated-updates")
    ctx.sample = what
