"""O03 ODE filters condition the prior on the (linearised) ODE (spec/OdeFilter.tla)."""
from ._thin import thin

ASSUMPTIONS = ["the specification's rationals cover the first steps with a once integrated Wiener process; longer runs, a two-dimensional ODE and a "
               "twice integrated prior are compared with one-shot conditioning of the whole chain",
               "steps with a vanishing residual (degenerate diffusion estimates) are left out"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["ResidualIsZero", "SatisfiesOde", "SmoothKeepsLast", "StartIsCertain", "EmitInv"]


def tlc_runs(tier, seed):
    q = tier == "quick"
    k = dict(Odes="{1, 2, 3, 4, 5, 6, 7, 8}", Values="{0, 1, 2}")
    return [dict(name="exhaustive-2-1", module="OdeFilter", invariants=INV, constants=dict(MaxSteps=2, MaxAsk=1, **k), filter=thin(150 if q else 4000)),
            dict(name="simulate-4-4", module="OdeFilter", invariants=INV, constants=dict(MaxSteps=4, MaxAsk=4, **k),
                 simulate=300 if q else 6000, depth=12, seed=seed)]


def ode_of(case, dim):
    import numpy as np

    o = case["ode"]

    def f(t, y):
        v = o["a"] * y[0] + o["b"] + o["c"] * t + o["e"] * y[0] ** 2
        return np.array([v]) if dim == 1 else np.array([v, 0.5 * y[0] - y[1] + t])

    def df(t, y):
        v = o["a"] + 2.0 * o["e"] * y[0]
        return np.array([[v]]) if dim == 1 else np.array([[v, 0.0], [0.5, -1.0]])
    return f, df


class Ref:
    """One-shot reference: diffusions by the filter recursion, beliefs by conditioning the whole chain."""

    def __init__(self, case, dim, q, m0, P0, f, df):
        import math

        import numpy as np
        from ._gauss import Chain

        self.np, self.case, self.dim, self.q = np, case, dim, q
        n = q + 1

        def Aq(h):
            return np.array([[h ** (j - i) / math.factorial(j - i) if j >= i else 0.0 for j in range(n)] for i in range(n)])

        def Qq(h):
            return np.array([[h ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * math.factorial(q - i) * math.factorial(q - j)) for j in range(n)] for i in range(n)])
        self.A = lambda h: np.kron(np.eye(dim), Aq(h))
        self.Q = lambda h: np.kron(np.eye(dim), Qq(h))
        self.E0, self.E1 = np.kron(np.eye(dim), np.eye(n)[:1]), np.kron(np.eye(dim), np.eye(n)[1:2])
        m, P, t = np.array(m0, dtype=float), np.array(P0, dtype=float), 0.0
        self.sig, self.obs, self.grid, self.means = [], {}, [0.0], [m]
        for h in case["steps"]:
            A, Q = self.A(float(h)), self.Q(float(h))
            t = t + h
            mp = A @ m
            y = self.E0 @ mp
            z = self.E1 @ mp - f(t, y)
            H = self.E1 - (df(t, y) @ self.E0 if case["strat"] == "EK1" else 0.0)
            S0, S1 = H @ Q @ H.T, H @ (A @ P @ A.T + Q) @ H.T
            s = float(z @ np.linalg.solve(S0 if case["diff"] == "dynamic" else S1, z)) / dim
            Pp = A @ P @ A.T + (s if case["diff"] == "dynamic" else 1.0) * Q
            K = Pp @ H.T @ np.linalg.inv(H @ Pp @ H.T)
            m, P = mp - K @ z, Pp - K @ H @ Pp
            self.sig.append(s)
            self.obs[t] = (H, z - H @ mp)
            self.grid.append(t)
            self.means.append(m)
        self.scale = 1.0 if case["diff"] == "dynamic" else float(np.mean(self.sig))
        self.m0, self.P0 = np.array(m0, dtype=float), self.scale * np.array(P0, dtype=float)
        self.Chain = Chain

    def diffusion(self, u):
        """of the step that ends at or contains u"""
        if self.case["diff"] == "constant":
            return self.scale
        for k in range(len(self.sig)):
            if u <= self.grid[k + 1]:
                return self.sig[k]
        return self.sig[-1]

    def chain(self, extra):
        np = self.np
        pts = sorted(set(self.grid) | set(extra))
        ch = self.Chain(self.m0, self.P0)
        idx, upto, n_obs = {0.0: 0}, {0.0: 0}, 0
        for a, b in zip(pts[:-1], pts[1:]):
            idx[b] = ch.step(self.A(b - a), np.zeros(len(self.m0)), self.diffusion(b) * self.Q(b - a))
            if b in self.obs:
                H, c = self.obs[b]
                ch.observe(idx[b], H, c, np.zeros((len(c), len(c))), np.zeros(len(c)))
                n_obs += 1
            upto[b] = n_obs
        return ch, idx, upto

    def beliefs(self, times):
        """{t: (filter mean, cov)}, {t: (smoothing mean, cov)}, joint smoothing (mean, cov) at times"""
        np = self.np
        ch, idx, upto = self.chain(times)
        d = len(self.m0)
        sl = lambda t: slice(idx[t] * d, (idx[t] + 1) * d)
        cache = {}
        fl = {}
        for t in times:
            k = upto[t]
            if k not in cache:
                cache[k] = ch.posterior(k)
            m, P = cache[k]
            fl[t] = m[sl(t)], P[sl(t), sl(t)]
        m, P = ch.posterior()
        sm = {t: (m[sl(t)], P[sl(t), sl(t)]) for t in times}
        rows = np.concatenate([np.arange(idx[t] * d, (idx[t] + 1) * d) for t in times])
        return fl, sm, (m[rows], P[np.ix_(rows, rows)])


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum import diffeq, problems, randprocs, randvars
    from ._gauss import known, mat
    from ._probe import law

    label = "%r y0=%r %s %s steps %r asked %r" % (case["ode"], case["y0"], case["strat"], case["diff"], case["steps"], case["asked"])
    h = zlib.crc32(label.encode())
    F = diffeq.odefilter
    asked = [u / 2.0 for u in case["asked"]]

    class Steps(diffeq.stepsize.StepRule):
        def __init__(self, steps):
            self.left = [float(s) for s in steps]
            self.taken = 0
            super().__init__(firststep=self.left[0])

        def suggest(self, laststep, scaled_error, localconvrate=None):
            self.taken += 1
            return self.left[min(self.taken, len(self.left) - 1)]

        def is_accepted(self, scaled_error):
            return True

        def errorest_to_norm(self, errorest, reference_state):
            return 0.5

    class Init(F.init_routines.InitializationRoutine):
        def __init__(self, m, P):
            super().__init__(is_exact=False, requires_jax=False)
            self.m, self.P = m, P

        def __call__(self, *, ivp, prior_process):
            return randvars.Normal(self.m, self.P, cov_cholesky=np.sqrt(self.P))

    variants = [(1, 1), (2, 2)] if ctx.tier != "quick" else [[(1, 1)], [(1, 1)], [(2, 2)], [(2, 1)]][h % 4]
    for dim, q in variants:
        f, df = ode_of(case, dim)
        y0 = np.array([float(case["y0"])] if dim == 1 else [float(case["y0"]), 1.0])
        tmax = float(sum(case["steps"]))
        ivp = problems.InitialValueProblem(f=f, df=df, t0=0.0, tmax=tmax, y0=y0)
        f0 = f(0.0, y0)
        stack = np.zeros((dim, q + 1))
        stack[:, 0], stack[:, 1] = y0, f0
        var = np.zeros((dim, q + 1))
        if q > 1:
            stack[:, 2], var[:, 2] = 0.5, 4.0
        m0, P0 = stack.reshape(-1), np.diag(var.reshape(-1))
        ref = Ref(case, dim, q, m0, P0, f, df)
        big = max(np.max(np.abs(m)) for m in ref.means)
        if not np.isfinite(big) or big > 1e5 or min(ref.sig) < 1e-6 * max(1.0, max(ref.sig)):
            ctx.count("skipped_ill_conditioned")
            continue

        def solver(smoothing):
            prior = randprocs.markov.integrator.IntegratedWienerProcess(
                initarg=0.0, num_derivatives=q, wiener_process_dimension=dim, diffuse=True, forward_implementation="sqrt", backward_implementation="sqrt")
            C = randprocs.markov.continuous
            d = C.PiecewiseConstantDiffusion(t0=0.0) if case["diff"] == "dynamic" else C.ConstantDiffusion()
            init = F.init_routines.Stack() if q == 1 else Init(m0, P0)
            return F.ODEFilter(steprule=Steps(case["steps"]), prior_process=prior, approx_strategy=getattr(F.approx_strategies, case["strat"])(),
                               with_smoothing=smoothing, init_routine=init, diffusion_model=d)

        name = "dim %d order %d %s" % (dim, q, label)
        fsol, ssol = solver(False).solve(ivp), solver(True).solve(ivp)
        ctx.count("runs")
        grid = ref.grid
        fl, sm, _ = ref.beliefs(grid)

        def same(rv, m, P, full=0.0):
            m, P = np.asarray(m), np.asarray(P)
            sc = 2e-6 * (1e-3 + max(np.max(np.abs(P)), full))
            return (rv.mean.shape == m.shape and np.allclose(rv.mean, m, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(m))))
                    and np.allclose(rv.cov, P, rtol=1e-5, atol=sc)
                    and np.allclose(rv.cov_cholesky @ rv.cov_cholesky.T, P, rtol=1e-5, atol=sc))

        def proj(E, b):
            return E @ b[0], E @ b[1] @ E.T, np.max(np.abs(b[1]))

        def show(rv, b):
            return "%s: mean %r cov %r, expected %r %r" % (name, rv.mean.tolist(), rv.cov.tolist(), b[0].tolist(), b[1].tolist())

        for sol, want, what in ((fsol, fl, "filter"), (ssol, sm, "smoother"), (ssol.filtering_solution, fl, "filter-of-smoother")):
            if not ctx.check(len(sol.states) == len(grid) and np.allclose(sol.locations, grid), "solution-grid", lambda: "%s: %r" % (name, sol.locations)):
                continue
            for k, t in enumerate(grid):
                st = sol.kalman_posterior.states[k]
                ctx.check(same(st, *want[t]), what + "-states", lambda: "t=%r " % t + show(st, want[t]))
                ctx.check(same(sol.states[k], *proj(ref.E0, want[t])), what + "-solution", lambda: "t=%r " % t + show(sol.states[k], proj(ref.E0, want[t])))
                ctx.check(same(sol.derivatives[k], *proj(ref.E1, want[t])), what + "-derivative", lambda: "t=%r " % t + show(sol.derivatives[k], proj(ref.E1, want[t])))
        if (dim, q) == (1, 1):  # the specification's own numbers
            for k in range(len(grid)):
                for sol, b, what in ((fsol, case["filt"][k], "filter"), (ssol, case["smth"][k], "smoother")):
                    if known(b):
                        e = mat(b["m"])[:, 0], mat(b["P"])
                        ctx.check(same(sol.kalman_posterior.states[k], *e), "specified-" + what, lambda: show(sol.kalman_posterior.states[k], e))
                        ctx.count("exact_beliefs")
        fl, sm, joint = ref.beliefs(asked)
        for sol, want, what in ((fsol, fl, "filter"), (ssol, sm, "smoother")):
            for t in asked:
                rv = sol(t)
                ctx.check(same(rv, *proj(ref.E0, want[t])), what + "-dense-output", lambda: "t=%r " % t + show(rv, proj(ref.E0, want[t])))
            many = sol(np.array(asked))
            ctx.check(all(same(rv, *proj(ref.E0, want[t])) for rv, t in zip(many, asked)) and len(many) == len(asked), what + "-dense-output-array", name)
        # joint samples
        n = len(asked)
        E = np.kron(np.eye(n), ref.E0)
        m, P = E @ joint[0], E @ joint[1] @ E.T
        shape, base, J, ok = law(lambda rng: ssol.sample(rng, t=np.array(asked)))
        ctx.check(shape == (n, dim), "sample-shape", lambda: "%s: %r" % (name, shape))
        ctx.check(ok and np.allclose(base, m, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(m)))) and np.allclose(J @ J.T, P, rtol=1e-5, atol=2e-6 * (1e-3 + np.max(np.abs(P)))),
                  "sample-law", lambda: "%s: mean %r cov %r, expected %r %r" % (name, base, J @ J.T, m, P))
        if (dim, q) == (2, 2) or (ctx.tier != "quick"):
            from_api = diffeq.probsolve_ivp(f, 0.0, tmax, y0, df=df, method=case["strat"], dense_output=bool(h % 2), algo_order=q, adaptive=False, step=1.0,
                                            diffusion_model=case["diff"])
            prior = randprocs.markov.integrator.IntegratedWienerProcess(
                initarg=0.0, num_derivatives=q, wiener_process_dimension=dim, diffuse=True, forward_implementation="sqrt", backward_implementation="sqrt")
            C = randprocs.markov.continuous
            manual = F.ODEFilter(steprule=diffeq.stepsize.ConstantSteps(1.0), prior_process=prior, approx_strategy=getattr(F.approx_strategies, case["strat"])(),
                                 with_smoothing=bool(h % 2), diffusion_model=C.ConstantDiffusion() if case["diff"] == "constant" else C.PiecewiseConstantDiffusion(t0=0.0)).solve(ivp)
            ctx.check(len(from_api.states) == len(manual.states) and all(
                np.allclose(a.mean, b.mean) and np.allclose(a.cov, b.cov) for a, b in zip(from_api.states, manual.states)), "probsolve-ivp", name)
    ctx.sample = label
