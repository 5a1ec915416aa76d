"""Binding of spec/LinSolve.tla to probnum.linalg.solvers."""


def mat(a):
    import numpy as np
    return np.array(a["m"], dtype=float) / a["d"]


def vec(a):
    return mat(a)[:, 0]


def close(got, want, scale=1.0, tol=1e-8):
    import numpy as np
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * (scale + np.max(np.abs(want), initial=0.0))))


def dense(m):
    return m.todense() if hasattr(m, "todense") else m


def criterion(c, qoi, u=1.0):
    """The stopping criterion of a term, for a system scaled by u."""
    from probnum.linalg.solvers import stopping_criteria as sc
    op = c["op"]
    if op == "max":
        return sc.MaxIterationsStoppingCriterion(maxiter=c["n"])
    if op == "atol":
        return sc.ResidualNormStoppingCriterion(atol=u * c["n"] / c["d"], rtol=0.0)
    if op == "rtol":
        return sc.ResidualNormStoppingCriterion(atol=0.0, rtol=c["n"] / c["d"])
    if op == "con":
        return sc.PosteriorContractionStoppingCriterion(qoi=qoi, atol=c["n"] / c["d"] / (1.0 if qoi == "x" else u), rtol=0.0)
    if op == "conr":
        return sc.PosteriorContractionStoppingCriterion(qoi=qoi, atol=0.0, rtol=c["n"] / c["d"] / (u if qoi == "x" else u * u))
    if op == "not":
        return ~criterion(c["l"], qoi, u)
    l, r = criterion(c["l"], qoi, u), criterion(c["r"], qoi, u)
    return l & r if op == "and" else l | r


COVS = {2: [[[1, 0], [0, 1]], [[2, 1], [1, 2]]], 3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 1, 0], [1, 2, 0], [0, 0, 1]]]}


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum import linops, problems, randvars
    from probnum.linalg import solvers as ls
    from probnum.linalg.solvers import belief_updates, information_ops, policies
    from probnum.linalg.solvers.beliefs import LinearSystemBelief
    from probnum.utils.linalg import double_gram_schmidt, modified_gram_schmidt

    cfg, hist = case["cfg"], case["hist"]
    kind, pol = cfg["kind"], cfg["policy"]
    acts = [vec(a) for a in case["acts"]]
    label = "%s solver, policy %s, criterion %s, A %r, b %r, prior %d/%d/%d, actions %r" % (
        kind, pol, cfg["crit"], cfg["A"], cfg["b"], cfg["mean"], cfg["cov"], cfg["left"], [list(np.round(a, 6)) for a in acts])
    h = zlib.crc32(label.encode())
    # the same system in other units: A and b times u, beliefs about A and its inverse accordingly
    u = [1.0, 2.0 ** -24, 2.0 ** 16][h // 7 % 3] if kind != "noisy" else 1.0
    label = "units %g, %s" % (u, label)
    A = u * np.array(cfg["A"], dtype=float)
    b = u * np.array(cfg["b"], dtype=float)
    if pol == "cg":
        acts = [u * a for a in acts]
    res = lambda e: u * vec(e["r"])
    n = len(b)
    Aarg = linops.aslinop(A) if h % 2 else A
    is_x = kind in ("x", "noisy")
    qoi = "x" if is_x else "Ainv"

    class Scripted(policies.LinearSolverPolicy):
        def __call__(self, solver_state, rng=None):
            k = solver_state.step
            if k >= len(acts):
                raise RuntimeError("the loop does not stop: %s" % label)
            return acts[k].copy()

    mscale = {"A": u, "H": 1 / u}
    wscale = {q: v if kind == "sym" else v * v for q, v in mscale.items()}

    def prior():
        p = hist[0]["b"]
        if is_x:
            ainv = randvars.Constant(np.eye(n)) if h % 5 == 0 else None
            return LinearSystemBelief(x=randvars.Normal(vec(p["m"]), mat(p["P"])), Ainv=ainv), ainv
        left = np.array(COVS[n][cfg["left"] - 1], dtype=float)
        rv = {}
        for q in "AH":
            W = linops.aslinop(wscale[q] * mat(p[q]["W"]))
            cov = linops.Kronecker(A=linops.aslinop(left), B=W) if kind == "mat" else linops.SymmetricKronecker(A=W)
            rv[q] = randvars.Normal(linops.aslinop(mscale[q] * mat(p[q]["M"])), cov)
        return LinearSystemBelief(A=rv["A"], Ainv=rv["H"], b=randvars.Constant(b)), None

    def policy():
        return policies.ConjugateGradientPolicy() if pol == "cg" else Scripted()

    crit = lambda: criterion(case["crit"], qoi, u)
    noise = 0.5 if kind == "noisy" else 0.0
    makers = []
    if is_x:
        upd = belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=noise)
        makers.append(("generic", lambda: ls.ProbabilisticLinearSolver(policy=policy(), information_op=information_ops.ProjectedResidualInformationOp(),
                                                                       belief_update=upd, stopping_criterion=crit())))
        if pol == "cg" and kind == "x":
            makers.append(("BayesCG", lambda: ls.BayesCG(stopping_criterion=crit())))
            if not hist[-1]["zero"]:
                gs = modified_gram_schmidt if h % 3 else double_gram_schmidt
                for nm, kw in (("reorthogonalised residuals", dict(reorthogonalization_fn_residual=gs)), ("reorthogonalised actions", dict(reorthogonalization_fn_action=gs)),
                               ("both reorthogonalised", dict(reorthogonalization_fn_residual=gs, reorthogonalization_fn_action=gs))):
                    makers.append((nm, lambda kw=kw: ls.ProbabilisticLinearSolver(
                        policy=policies.ConjugateGradientPolicy(**kw), information_op=information_ops.ProjectedResidualInformationOp(),
                        belief_update=upd, stopping_criterion=crit())))
    else:
        cls = ls.MatrixBasedPLS if kind == "mat" else ls.SymMatrixBasedPLS
        makers.append((cls.__name__, lambda: cls(policy=policy(), stopping_criterion=crit())))

    def check_state(name, k, st, bel):
        e = hist[k]
        what = "%s, %s after %d steps" % (label, name, k)
        orth = "reorthogonalised" in name
        ctx.check(st.step == k, "step", lambda: "%s: step %r" % (what, st.step))
        ctx.check(close(bel.x.mean, vec(e["x"])), "solution-mean", lambda: "%s: %r, exact %r" % (what, bel.x.mean, vec(e["x"])))
        ctx.check(close(st.problem.b - st.problem.A @ bel.x.mean, res(e), u), "residual-norm", lambda: what)
        if not e["zero"]:
            ctx.check(close(dense(bel.x.cov), mat(e["xc"])), "solution-cov", lambda: "%s: %r, exact %r" % (what, dense(bel.x.cov), mat(e["xc"])))
            if not is_x:
                for q, rv in (("A", bel.A), ("H", bel.Ainv)):
                    ctx.check(close(dense(rv.mean), mscale[q] * mat(e["b"][q]["M"]), mscale[q]), "matrix-mean",
                              lambda: "%s, %s: %r, exact %r" % (what, q, dense(rv.mean), mscale[q] * mat(e["b"][q]["M"])))
                    W = wscale[q] * mat(e["b"][q]["W"])
                    want = np.kron(np.array(COVS[n][cfg["left"] - 1], dtype=float) if kind == "mat" else W, W)
                    ctx.check(close(dense(rv.cov), want, mscale[q] ** 2), "matrix-cov", lambda: "%s, %s: %r, exact %r" % (what, q, dense(rv.cov), want))
            elif k > 0:
                base = np.eye(n) if ainv0 is not None else 0.0
                want = base + (mat(hist[0]["xc"]) - mat(e["xc"]))
                ctx.check(close(dense(bel.Ainv.mean), want), "inverse-estimate", lambda: "%s: %r, exact %r" % (what, dense(bel.Ainv.mean), want))
        else:
            ctx.check(np.all(np.isfinite(dense(bel.x.cov))), "finite", lambda: what)
        # history
        ctx.check(len(st.actions) == len(st.observations) == len(st.residuals) == k + 1, "history-lengths", lambda: what)
        for i in range(min(k, len(acts))):
            au = u if pol == "cg" else 1.0
            ctx.check(close(st.actions[i], acts[i], 1e-3 * au), "actions", lambda: "%s, action %d: %r, exact %r" % (what, i, st.actions[i], acts[i]))
            want = float(acts[i] @ res(hist[i])) if is_x else A @ acts[i]
            ctx.check(close(st.observations[i], want, 1e-3 * u * au), "observations", lambda: "%s, observation %d: %r, exact %r" % (what, i, st.observations[i], want))
            if st.residuals[i] is not None:
                ctx.check(close(st.residuals[i], res(hist[i]), u), "residuals", lambda: "%s, residual %d" % (what, i))

    for name, make in makers:
        problem = problems.LinearSystem(Aarg, b)
        pr, ainv0 = prior()
        solver = make()
        bel, st = solver.solve(prior=pr, problem=problem, rng=np.random.default_rng(1))
        ctx.check(st.step == len(acts), "stops-when-the-criterion-holds", lambda: "%s, %s: %d steps, expected %d" % (label, name, st.step, len(acts)))
        ctx.check(bel is st.belief and st.problem is problem and st.prior is pr, "returns-the-state", lambda: "%s, %s" % (label, name))
        if st.step == len(acts):
            check_state(name, len(acts), st, bel)
        ctx.check(close(np.asarray(dense(problem.A)), A, tol=0) and np.array_equal(problem.b, b), "problem-unchanged", lambda: label)
        # the iterator shows every intermediate state, and a solver can be used again
        k = 0
        for st in solver.solve_iterator(prior=pr, problem=problem, rng=np.random.default_rng(1)):
            if k <= len(acts):
                check_state("iterator of " + name, k, st, st.belief)
            k += 1
        ctx.check(k == len(acts) + 1, "iterations", lambda: "%s, %s: %d states" % (label, name, k))
        ctx.count("runs")
    ctx.sample = label


def policy_case(case, ctx):
    """The random unit vector policy: its law, and that rows are not repeated."""
    import numpy as np
    from probnum import linops, problems, randvars
    from probnum.linalg import solvers as ls
    from probnum.linalg.solvers import policies
    from probnum.linalg.solvers.beliefs import LinearSystemBelief
    from probnum.linalg.solvers.stopping_criteria import MaxIterationsStoppingCriterion

    A = np.array(case["A"], dtype=float)
    n = A.shape[0]
    b = np.arange(1.0, n + 1)
    label = repr(case)
    problem = problems.LinearSystem(A, b)
    prior = LinearSystemBelief(x=randvars.Normal(np.zeros(n), np.eye(n)))
    pol = policies.RandomUnitVectorPolicy(probabilities=case["probs"], replace=case["replace"])
    want = np.ones(n) / n if case["probs"] == "uniform" else np.sum(A ** 2, axis=1) / np.sum(A ** 2)
    rng = np.random.default_rng(case["seed"])
    N = 1500
    if case["replace"]:
        st = ls.LinearSolverState(problem=problem, prior=prior)
        draws = np.array([pol(st, rng=rng) for _ in range(N)])
        ctx.check(set(np.unique(draws)) <= {0.0, 1.0} and np.all(draws.sum(axis=1) == 1.0), "unit-vectors", lambda: label)
        first = draws.mean(axis=0)
    else:
        firsts = []
        for i in range(N if case["probs"] == "rownorm" else 300):
            st = ls.LinearSolverState(problem=problem, prior=prior)
            rows = [int(np.argmax(pol(st, rng=rng))) for _ in range(n if i < 30 else 1)]
            firsts.append(rows[0])
            ctx.check(len(set(rows)) == len(rows), "no-row-twice", lambda: "%s: %r" % (label, rows))
        first = np.bincount(firsts, minlength=n) / len(firsts)
        N = len(firsts)
    ctx.check(np.all(np.abs(first - want) <= 6 * np.sqrt(want * (1 - want) / N) + 1e-12), "row-probabilities", lambda: "%s: frequencies %r, probabilities %r" % (label, first, want))
    # Kaczmarz: every iterate solves the row chosen last
    solver = ls.ProbabilisticKaczmarz(stopping_criterion=MaxIterationsStoppingCriterion(2 * n))
    for st in solver.solve_iterator(prior, problem, rng=rng):
        if st.step:
            r = b - A @ st.belief.x.mean
            rows = {int(np.argmax(a)) for a in st.actions[:-1]}
            ctx.check(all(abs(r[i]) < 1e-8 for i in rows), "chosen-rows-solved", lambda: "%s: %r %r" % (label, rows, r))


def policy_cases(tier):
    mats = [[[3, 1], [0, 1]], [[1, 2], [5, 0]], [[1, 0, 0], [2, 2, 0], [0, 1, 4]], [[2, 1], [1, 2]]]
    return [{"A": m, "probs": p, "replace": r, "seed": s} for m in mats for p in ("uniform", "rownorm") for r in (True, False)
            for s in range(1 if tier == "quick" else 6)]
