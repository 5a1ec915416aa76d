"""Q01 Bayesian quadrature beliefs are Gaussian process conditioning (spec/BayesQuad.tla)."""
ASSUMPTIONS = ["point sets and length scales for which kernel values are powers of two and kernel means rational multiples of a constant",
               "the jitter acts as observation noise variance on the Gram matrix (relative to the kernel's output scale)"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["OrderFree", "OneShot", "Interpolates", "Shrinks", "EmitInv"]
KERNS = "{\"m1\", \"m2\", \"eg1\", \"eg2\"}"


def tlc_runs(tier, seed):
    from ._thin import thin

    q = tier == "quick"
    runs = [dict(name="exhaustive", module="BayesQuad", invariants=INV, filter=thin(1500 if q else 100000), timeout=900,
                 constants=dict(Kerns=KERNS, Jits="{0, 2}", MaxData=2 if q else 3, Sizes="{1, 2}", Modes="{\"mle\"}"))]
    for i in range(3):
        runs.append(dict(name="simulate-%d" % i, module="BayesQuad", invariants=INV, simulate=400 if q else 5000, depth=14, seed=seed * 7 + i,
                         constants=dict(Kerns=KERNS, Jits="{0, 2, 4}", MaxData=4 if q else 5, Sizes="{1, 2, 3}", Modes="{\"mle\", \"none\"}"),
                         timeout=1800))
    return runs


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum.quad import bayesquad_from_data, multilevel_bayesquad_from_data
    from probnum.quad.kernel_embeddings import KernelEmbedding
    from probnum.quad.solvers import BayesianQuadrature, BQState
    from probnum.quad.solvers.acquisition_functions import IntegralVarianceReduction, MutualInformation, WeightedPredictiveVariance
    from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
    from probnum.randvars import Normal
    from ._quad import Belief, Problem, close

    cfg, data = case["cfg"], case["data"]
    label = "%r data %s batches %r" % (cfg, " ".join("%d:%d" % (x["j"], x["y"]) for x in data), [s["n"] for s in case["hist"]])
    h = zlib.crc32(label.encode())
    prob = Problem(cfg["kern"], h)
    jit = cfg["jit"][0] / cfg["jit"][1]
    mode = "mle" if cfg["scale"] == "mle" else None
    idx = np.array([x["j"] - 1 for x in data])
    X, y = prob.points[idx], np.array([x["y"] for x in data], dtype=float)
    update = BQStandardBeliefUpdate(jitter=jit, scale_estimation=mode)
    state = BQState(measure=prob.measure, kernel=prob.kernel,
                    integral_belief=Normal(0.0, KernelEmbedding(prob.kernel, prob.measure).kernel_variance()))
    ctx.check(close(state.integral_belief.cov, prob.kvar, prob.kvar), "prior-variance", lambda: "%s: %r vs %r" % (label, state.integral_belief.cov, prob.kvar))
    states, pos = [], 0

    def compare(state, bel, n, name):
        ctx.check(close(state.integral_belief.mean, bel.mean, prob.unit * 4), "integral-mean",
                  lambda: "%s: %r, exact %r" % (name, state.integral_belief.mean, bel.mean))
        ctx.check(close(state.integral_belief.cov, bel.var, prob.kvar * bel.scale), "integral-variance",
                  lambda: "%s: %r, exact %r" % (name, state.integral_belief.cov, bel.var))
        ctx.check(close(state.scale_sq, bel.scale, bel.scale), "scale", lambda: "%s: %r, exact %r" % (name, state.scale_sq, bel.scale))
        ctx.check(close(state.nodes, X[:n], 1.0) and close(state.fun_evals, y[:n], 1.0), "data-kept-in-order", lambda: "%s: %r" % (name, state.nodes))
        mu, var = BQStandardBeliefUpdate.predict_integrand(prob.points, state)
        ctx.check(close(mu, bel.mu, 4.0), "integrand-mean", lambda: "%s: %r, exact %r" % (name, mu, bel.mu))
        ctx.check(close(var, bel.pvar, bel.scale), "integrand-variance", lambda: "%s: %r, exact %r" % (name, var, bel.pvar))

    for step in case["hist"]:
        n = pos + step["n"]
        new, state = update(bq_state=state, new_nodes=X[pos:n].copy(), new_fun_evals=y[pos:n].copy())
        pos = n
        bel = Belief(prob, step["b"], n, cfg["scale"])
        name = "%s after %d" % (label, n)
        compare(state, bel, n, name)
        ctx.check(close(new.mean, state.integral_belief.mean) and close(new.cov, state.integral_belief.cov), "returned-belief", name)
        prev = [0.0] + [s[1].mean for s in states]
        ctx.check(len(state.previous_integral_beliefs) == len(prev)
                  and close([p.mean for p in state.previous_integral_beliefs], prev, prob.unit * 4), "previous-beliefs", name)
        states.append((state, bel, n))
        ok = np.diag(bel.C) > 1e-6
        if ok.any() and bel.var0 > 1e-6 * prob.kvar:
            pts = prob.points[ok]
            rho2 = bel.emb[ok] ** 2 / (bel.var0 * np.diag(bel.C)[ok])
            got = IntegralVarianceReduction()(pts, state)[0]
            ctx.check(close(got, rho2, 1.0, 1e-6), "variance-reduction", lambda: "%s: %r, exact %r" % (name, got, rho2))
            if np.all(rho2 < 1 - 1e-6):
                mi = MutualInformation()(pts, state)[0]
                ctx.check(close(mi, -0.5 * np.log1p(-rho2), 1.0, 1e-5), "mutual-information", lambda: "%s: %r" % (name, mi))
        us = WeightedPredictiveVariance()(prob.points, state)[0]
        want = np.diag(bel.C) * prob.density ** 2
        ctx.check(close(us, want, np.max(prob.density) ** 2, 1e-7), "weighted-variance", lambda: "%s: %r, exact %r" % (name, us, want))
    # earlier states are values: later updates do not change them
    for s, bel, n in states[:-1]:
        compare(s, bel, n, "%s, earlier state of %d revisited" % (label, n))
    bel = states[-1][1]
    opts = dict(jitter=jit, scale_estimation=mode)
    use_domain = prob.domain is not None and h % 2
    kw = dict(domain=prob.domain) if use_domain else dict(measure=prob.measure)
    perm = np.random.RandomState(h % 1000).permutation(len(y))
    got, info = bayesquad_from_data(nodes=X[perm], fun_evals=y[perm], kernel=prob.kernel, options=opts, **kw)
    ctx.check(close(got.mean, bel.mean, prob.unit * 4) and close(got.cov, bel.var, prob.kvar * bel.scale), "from-data",
              lambda: "%s (order %r): %r %r, exact %r %r" % (label, perm, got.mean, got.cov, bel.mean, bel.var))
    ctx.check(info.nevals == len(y) and info.iteration == 0 and bool(info.has_converged), "from-data-info", lambda: "%s: %r" % (label, info))
    got, infos = multilevel_bayesquad_from_data(nodes=(X,), fun_diff_evals=(y, -2.0 * y, y), kernels=(prob.kernel,) * 3, options=opts, **kw)
    wantv = prob.kvar * 0 + (bel.var * 6 if mode == "mle" else bel.var * 3)
    ctx.check(close(got.mean, 0.0, prob.unit * 8) and close(got.cov, wantv, prob.kvar * bel.scale) and [i.nevals for i in infos] == [len(y)] * 3,
              "multilevel", lambda: "%s: %r %r, exact %r %r" % (label, got.mean, got.cov, 0, wantv))
    # the same through the solver object, with the integrand itself
    table = {tuple(np.round(p, 9)): v for p, v in zip(X, y)}
    if len(table) == len(set(map(tuple, np.round(X, 9)))) and all(table[tuple(np.round(p, 9))] == v for p, v in zip(X, y)):
        bq = BayesianQuadrature(kernel=prob.kernel, measure=prob.measure, policy=None, belief_update=update, stopping_criterion=None, initial_design=None)
        out, st, _ = bq.integrate(fun=lambda x: np.array([table[tuple(np.round(p, 9))] for p in x]), nodes=X, fun_evals=None)
        compare(st, bel, len(y), label + " integrate")
        ctx.check(close(out.mean, bel.mean, prob.unit * 4), "integrate", label)
    ctx.sample = label
