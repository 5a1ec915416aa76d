"""T01 regression problems, IVPs turned into them, and solver initialisations state exactly the given facts (spec/RegProb.tla)."""
import zlib

ASSUMPTIONS = ["locations within one problem are distinct", "vector fields are polynomials of degree at most two"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["NothingLostOrInvented", "Commutes", "ProbeConsistent", "EmitInv"]


def tlc_runs(tier, seed):
    from props._thin import thin

    quick = tier == "quick"

    def K(n, src, dim=2, q=2, hor=5):
        return dict(MaxProblems=n, Horizon=hor, Deriv=q, Dim=dim, Sources="{%s}" % ", ".join('"%s"' % s for s in src))

    runs = [dict(name="data-alone", module="RegProb", constants=K(1, ["data", "mixed"], hor=3), invariants=INV)]
    for dim in (1, 2):
        for q in (1, 2, 3, 4):
            runs.append(dict(name="init-%d-%d" % (dim, q), module="RegProb", constants=K(1, ["init"], dim, q), invariants=INV))
        for q in (1, 2, 3):
            r = dict(name="ivp-%d-%d" % (dim, q), module="RegProb", constants=K(1, ["ivp"], dim, q, 4), invariants=INV)
            if quick:
                r["filter"] = thin(150)
            runs.append(r)
    for n, src, q, num in ((3, ["data"], 1, 100), (3, ["data"], 2, 100), (3, ["data"], 3, 60), (5, ["data"], 2, 150),
                           (6, ["data"], 1, 100), (3, ["data", "mixed"], 2, 200)):
        runs.append(dict(name="merge-%d-%d%s" % (n, q, "-mixed" * (len(src) > 1)), module="RegProb", constants=K(n, src, 2, q, 8),
                         invariants=INV, simulate=num if quick else 20 * num, depth=2 * n + 3, seed=seed))
    for dim, q, n in ((1, 2, 3), (2, 1, 3), (2, 2, 3), (1, 1, 5), (1, 3, 3)):
        runs.append(dict(name="solver-%d-%d-%d" % (dim, q, n), module="RegProb", constants=K(n, ["solver", "ivp"], dim, q, 8),
                         invariants=INV, simulate=60 if quick else 1500, depth=2 * n + 3, seed=seed + 1))
    return runs


class Field:
    def __init__(self, f):
        import numpy as np

        self.np = np
        self.b, self.g, self.A = (np.array(f[k], dtype=float) for k in ("b", "g", "A"))
        self.H, self.y0 = np.array(f["H"], dtype=float), np.array(f["y0"], dtype=float)

    def f(self, t, y):
        np = self.np
        return self.b + self.g * t + self.A @ y + np.array([y @ h @ y for h in self.H])

    def df(self, t, y):
        np = self.np
        return self.A + np.stack([(h + h.T) @ y for h in self.H])

    def sol(self, t):        # what the problem's author claims the solution to be; only its bookkeeping is judged
        return self.np.array([10.0 * t + i for i in range(len(self.y0))])


class Source:
    """one problem made from data or from an initial value problem, with what the library made of it"""
    __slots__ = ("h", "k", "prob", "field", "models", "obs", "sols")


def replay(case, ctx):
    import numpy as np
    from probnum import diffeq, filtsmooth, problems, randprocs, randvars

    hist, pool, dim, deriv = case["hist"], case["pool"], case["dim"], case["deriv"]
    n = dim * (deriv + 1)
    pick = zlib.crc32(repr(hist).encode())
    built = []          # per pool entry: the library's object, or None
    src = {}

    def belief():
        m = np.array(case["belief"], dtype=float)
        L = np.eye(n) + 0.25 * np.tril(np.cos(np.arange(n * n)).reshape(n, n), -1)
        return m, L @ L.T

    def contents(k, label):
        """the facts of problem k, as the specification lists them, against the library's problem"""
        p, spec = built[k], pool[k]
        facts = spec["facts"]
        ctx.check(len(p) == len(facts) and len(p.locations) == len(facts) and len(p.observations) == len(facts)
                  and len(p.measurement_models) == len(facts), "length", label)
        if len(p) != len(facts):
            return
        ctx.check(np.array_equal(np.asarray(p.locations, dtype=float), [f["t"] * 1.0 for f in facts]), "locations",
                  lambda: "%s: %r" % (label, p.locations))
        shape = tuple(spec["shape"])
        for i, f in enumerate(facts):
            s = src[f["src"]]
            t, y, m = p[i]
            want = s["obs"][f["tag"]] if f["tag"] else np.zeros(shape)
            ctx.check(float(t) == f["t"] * 1.0 and np.shape(y) == shape and np.array_equal(np.asarray(y, dtype=float), want),
                      "datum", lambda: "%s fact %d: %r" % (label, i, (t, y)))
            wm = s["models"][f["model"]] if s["kind"] == "data" else (s["prob"].measurement_models[s["h"]["ts"].index(f["t"])])
            ctx.check(m is wm and p.measurement_models[i] is wm, "model", lambda: "%s fact %d" % (label, i))
        seen = list(p)
        ctx.check(len(seen) == len(facts) and all(a[2] is p.measurement_models[i] and float(a[0]) == facts[i]["t"] * 1.0
                                                  for i, a in enumerate(seen)), "iteration", label)
        if len(facts) > 1:
            ts, ys, ms = p[1:]
            ctx.check(np.array_equal(np.asarray(ts, dtype=float), [f["t"] * 1.0 for f in facts[1:]]) and len(ys) == len(ms) == len(facts) - 1,
                      "slice", label)
        if not spec["sol"]:
            ctx.check(p.solution is None, "solution-unknown", lambda: "%s: %r" % (label, p.solution))
        else:
            ok = p.solution is not None and len(p.solution) == len(facts)
            ctx.check(ok and all(np.array_equal(np.asarray(p.solution[i], dtype=float), solution(f)) for i, f in enumerate(facts)),
                      "solution", lambda: "%s: %r" % (label, p.solution))

    def solution(f):
        s = src[f["src"]]
        return s["field"].sol(f["t"] * 1.0) if s["kind"] == "ivp" else s["sols"][s["h"]["ts"].index(f["t"])]

    def lti(k, j):
        """a model for data number j of problem k; of the solver's state if the data look like it"""
        H = np.zeros((dim, n))
        for i in range(dim):
            H[i, i * (deriv + 1)] = 1.0 + 0.5 * j
        R = np.diag([0.5 + 0.25 * i + 0.125 * k for i in range(dim)])
        return randprocs.markov.discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(np.full(dim, 0.25 * j), R))

    for k, h in enumerate(hist, 1):
        label = "%s after %s" % (h["op"], [x["op"] for x in hist[:k - 1]])
        spec = pool[k - 1]
        if h["op"] == "data":
            ts = np.array(h["ts"], dtype=float)
            N = len(ts)
            shape = tuple(h["shape"])
            size = int(np.prod(shape)) if shape else 1
            obs = {i: (np.arange(size) + 100.0 * k + 10 * i + 0.5).reshape(shape) for i in range(1, N + 1)}
            models = {i: lti(k, i) for i in range(1, N + 1)}
            sols = None
            if h["sol"]:
                ssh = () if h["sol"] == [0] else tuple(h["sol"])
                ssz = int(np.prod(ssh)) if ssh else 1
                sols = [(np.arange(ssz) - 1000.0 * k - 7 * i).reshape(ssh) for i in range(N)]
            src[k] = dict(kind="data", h=h, obs=obs, models=models, sols=sols)
            data = np.stack([obs[i] for i in range(1, N + 1)])
            if not h["bad"] and (pick + k) % 3 == 0 and shape == ():
                data = data - 0.5                      # integer data
                obs.update({i: obs[i] - 0.5 for i in obs})
                data = data.astype(np.int64)
            given = [models[i] for i in range(1, N + 1)] if h["each"] else models[1]
            if h["bad"]:
                which = (pick + k) % (3 if h["each"] else 1)
                args = [ts, data, given]
                args[[1, 2, 0][which]] = (args[[1, 2, 0][which]][:-1] if which != 2 else np.append(ts, 99.0))
                try:
                    problems.TimeSeriesRegressionProblem(locations=args[0], observations=args[1], measurement_models=args[2])
                except ValueError:
                    ctx.count("refused")
                else:
                    ctx.fail("mismatched-lengths-refused", label)
                built.append(None)
                continue
            p = problems.TimeSeriesRegressionProblem(locations=ts, observations=data, measurement_models=given,
                                                     solution=None if sols is None else np.stack(sols))
            built.append(p)
            contents(k - 1, label)
        elif h["op"] == "ivp":
            F = Field(h["field"])
            ivp = problems.InitialValueProblem(f=F.f, t0=float(h["ts"][0]), tmax=h["ts"][-1] + 1.0, y0=F.y0, df=F.df,
                                               solution=F.sol if h["sol"] else None)
            op = diffeq.odefilter.information_operators.ODEResidual(num_prior_derivatives=deriv, ode_dimension=dim)
            S = diffeq.odefilter.approx_strategies
            mode = [("sqrt", "sqrt"), ("classic", "classic"), ("classic", "joseph"), ("sqrt", "joseph")][pick % 4]
            ap = {"none": None, "EK0": S.EK0(*mode), "EK1": S.EK1(*mode)}[h["approx"]]
            p = diffeq.odefilter.utils.ivp_to_regression_problem(
                ivp=ivp, locations=np.array(h["ts"], dtype=float), ode_information_operator=op, approx_strategy=ap,
                ode_measurement_variance=h["var"] * 0.0625, exclude_initial_condition=h["exclude"])
            src[k] = dict(kind="ivp", h=h, prob=p, field=F)
            built.append(p)
            contents(k - 1, label)
            probe(case, ctx, h, p, belief(), F, label + " %s var %s exclude %s" % (h["approx"], h["var"], h["exclude"]))
        elif h["op"] == "merge":
            a, b = built[h["a"] - 1], built[h["b"] - 1]
            before = [(np.array(x.locations), np.array(x.observations), list(x.measurement_models)) for x in (a, b)]
            try:
                p = filtsmooth.utils.merge_regression_problems(a, b)
            except ValueError:
                p = None
            ctx.check((p is not None) == spec["ok"], "merge-refusal", lambda: "%s: %s, specification %s" % (
                label, "merged" if p else "refused", "accepts" if spec["ok"] else "refuses"))
            built.append(p)
            if p is not None and spec["ok"]:
                contents(k - 1, label)
            for x, (l, o, m) in zip((a, b), before):
                ctx.check(np.array_equal(x.locations, l) and np.array_equal(x.observations, o)
                          and all(u is v for u, v in zip(x.measurement_models, m)), "merge-leaves-arguments", label)
        elif h["op"] == "init":
            built.append(None)
            initial(case, ctx, h, label)
        else:
            built.append(None)
            fit(case, ctx, h, label)
    # what the last problem says about the state of the solver
    last = len(pool) - 1
    spec = pool[last]
    if spec["ok"] and built[last] is not None and spec["shape"] == [dim] and hist[last]["op"] in ("merge", "ivp"):
        infer(case, ctx, built[last], spec, src, "inference from %s" % [x["op"] for x in hist])
    ctx.sample = "%s (dimension %d, %d derivatives)" % ([x["op"] for x in hist], dim, deriv)


def near(a, b, tol=1e-8):
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def probe(case, ctx, h, p, bel, F, label):
    """each fact of an initial value problem asserts the specification's affine (linearised) statement"""
    import numpy as np
    from probnum import randvars

    m, C = bel
    rv = randvars.Normal(m, C)
    dim = case["dim"]
    for i, want in enumerate(h["probe"]):
        t, value = float(h["ts"][i]), np.array(want["value"], dtype=float)
        G = np.array(want["G"], dtype=float)
        R = h["var"] * 0.0625 * np.eye(dim)
        mm = p.measurement_models[i]
        ctx.check(mm.input_dim == len(m) and mm.output_dim == dim, "model-dimensions", label)
        out, _ = mm.forward_realization(m, t)
        ctx.check(near(out.mean, value), "fact-value", lambda: "%s fact %d: %r, want %r" % (label, i, out.mean, value))
        ctx.check(near(out.cov, R), "fact-noise", lambda: "%s fact %d: %r, want %r" % (label, i, out.cov, R))
        if h["approx"] == "none" and not (i == 0 and not h["exclude"]):
            continue
        fwd, info = mm.forward_rv(rv, t)
        S = G @ C @ G.T + R
        ctx.check(near(fwd.mean, value) and near(fwd.cov, S), "fact-linearised", lambda: "%s fact %d: %r %r, want %r %r" % (
            label, i, fwd.mean, fwd.cov, value, S))
        bwd, _ = mm.backward_realization(p.observations[i], rv, t=t)
        Kg = np.linalg.solve(S, G @ C).T
        ctx.check(near(bwd.mean, m - Kg @ value) and near(bwd.cov, C - Kg @ G @ C), "fact-conditioning",
                  lambda: "%s fact %d: %r, want %r" % (label, i, bwd.mean, m - Kg @ value))


def prior(case, dim, deriv, t0=0.0):
    import numpy as np
    from probnum import randprocs, randvars

    n = dim * (deriv + 1)
    tr = randprocs.markov.integrator.IntegratedWienerTransition(num_derivatives=deriv, wiener_process_dimension=dim)
    L = np.eye(n) + 0.25 * np.tril(np.sin(np.arange(n * n)).reshape(n, n), -1)
    rv = randvars.Normal(0.5 * np.array(case["belief"], dtype=float), L @ L.T)
    return randprocs.markov.MarkovProcess(transition=tr, initrv=rv, initarg=t0), rv


def steps(dim, deriv, h):
    """transition matrix and noise of the integrated Wiener process over a step h, by its definition"""
    import math

    import numpy as np

    k = deriv + 1
    A = np.array([[h ** (j - i) / math.factorial(j - i) if j >= i else 0.0 for j in range(k)] for i in range(k)])
    Q = np.array([[h ** (2 * deriv + 1 - i - j) / ((2 * deriv + 1 - i - j) * math.factorial(deriv - i) * math.factorial(deriv - j))
                   for j in range(k)] for i in range(k)])
    return np.kron(np.eye(dim), A), np.kron(np.eye(dim), Q)


def infer(case, ctx, prob, spec, src, label):
    """the Kalman filter on the problem computes the prior conditioned on the facts, in order of time"""
    import numpy as np
    from probnum import filtsmooth
    from props._gauss import Chain

    dim, deriv = case["dim"], case["deriv"]
    facts = spec["facts"]
    if any(src[f["src"]]["kind"] == "ivp" and src[f["src"]]["h"]["approx"] == "none" and f["model"] != 0 for f in facts):
        return
    if any(a["t"] >= b["t"] for a, b in zip(facts, facts[1:])):
        return
    pr, rv = prior(case, dim, deriv)
    ch = Chain(rv.mean, rv.cov)
    n = dim * (deriv + 1)
    m, C, t_old = np.array(rv.mean), np.array(rv.cov), 0
    want = []
    H0 = np.array([[1.0 if j == i * (deriv + 1) else 0.0 for j in range(n)] for i in range(dim)])
    H1 = np.array([[1.0 if j == i * (deriv + 1) + 1 else 0.0 for j in range(n)] for i in range(dim)])
    for i, f in enumerate(facts):
        s = src[f["src"]]
        if f["t"] > t_old:
            A, Q = steps(dim, deriv, float(f["t"] - t_old))
            m, C = A @ m, A @ C @ A.T + Q
            t_old = f["t"]
        if s["kind"] == "data":
            mm = s["models"][f["model"]]
            G, c, R, y = mm.transition_matrix, mm.noise.mean, mm.noise.cov, s["obs"][f["tag"]]
        else:
            F, R = s["field"], s["h"]["var"] * 0.0625 * np.eye(dim)
            y = np.zeros(dim)
            if f["model"] == 0:
                G, c = H0, -F.y0
            else:
                u = H0 @ m
                J = F.df(float(f["t"]), u) if s["h"]["approx"] == "EK1" else np.zeros((dim, dim))
                G = H1 - J @ H0
                c = H1 @ m - F.f(float(f["t"]), u) - G @ m
        S = G @ C @ G.T + R
        if np.linalg.cond(S) > 1e10:
            return
        Kg = np.linalg.solve(S, G @ C).T
        m, C = m + Kg @ (y - G @ m - c), C - Kg @ G @ C
        want.append((m, C))
    post, _ = filtsmooth.gaussian.Kalman(pr).filter(prob)
    ctx.count("inferences")
    ctx.check(np.array_equal(post.locations, [float(f["t"]) for f in facts]), "inference-locations", label)
    for i, (m, C) in enumerate(want):
        st = post.states[i]
        tol = 1e-6
        if not ctx.check(near(st.mean, m, tol) and near(st.cov, C, tol), "inference", lambda: "%s at %s:\n%r\n%r" % (
                label, facts[i]["t"], st.mean, m)):
            break


def initial(case, ctx, h, label):
    import numpy as np
    from probnum import problems
    from probnum.diffeq.odefilter import init_routines

    F = Field(h["field"])
    t0 = float(h["t0"])
    ivp = problems.InitialValueProblem(f=F.f, t0=t0, tmax=t0 + 1.0, y0=F.y0, df=F.df)
    pr, _ = prior(case, case["dim"], case["deriv"], t0)
    for scale in (1000.0, 3.0):
        rv = getattr(init_routines, h["routine"])(scale_cholesky=scale)(ivp=ivp, prior_process=pr)
        std = np.where(h["exact"], 0.0, scale)
        text = "%s with %d derivatives, scale %s" % (h["routine"], case["deriv"], scale)
        ctx.check(near(rv.mean, h["mean"]), "initial-mean", lambda: "%s: %r, want %r" % (text, rv.mean, h["mean"]))
        ctx.check(near(rv.cov, np.diag(std ** 2)) and near(rv.cov_cholesky, np.diag(std)), "initial-uncertainty", lambda: "%s: %r" % (text, rv.cov))


def fit(case, ctx, h, label):
    import numpy as np
    from probnum import problems
    from probnum.diffeq.odefilter import init_routines
    from props._gauss import Chain

    dim, deriv = case["dim"], case["deriv"]
    P = np.array(h["poly"], dtype=float)
    a, t0 = float(h["a"]), float(h["t0"])

    def p(t):
        return P[:, 0] + P[:, 1] * t + P[:, 2] * t * t

    def dp(t):
        return P[:, 1] + 2 * P[:, 2] * t

    ivp = problems.InitialValueProblem(f=lambda t, y: dp(t) + a * (y - p(t)), t0=t0, tmax=t0 + deriv + 1.0, y0=p(t0),
                                       df=lambda t, y: a * np.eye(dim))
    pr, rv0 = prior(case, dim, deriv, t0)
    std = 0.25
    dt = deriv / (deriv + 1.0)          # the routine spreads deriv + 1 points over (deriv + 1) dt
    rv = getattr(init_routines, h["routine"])(dt=dt, observation_noise_std=std)(ivp=ivp, prior_process=pr)
    ch = Chain(rv0.mean, rv0.cov)
    n = dim * (deriv + 1)
    H0 = np.array([[1.0 if j == i * (deriv + 1) else 0.0 for j in range(n)] for i in range(dim)])
    for i, d in enumerate(h["data"]):
        if i:
            A, Q = steps(dim, deriv, 1.0)
            ch.step(A, np.zeros(n), Q)
        ch.observe(i, H0, np.zeros(dim), std ** 2 * np.eye(dim), np.array(d["y"], dtype=float))
    m, C = ch.part(ch.posterior(), 0)
    text = "%s with %d derivatives from t0 = %s" % (h["routine"], deriv, t0)
    ctx.check(near(rv.mean, m, 1e-6) and near(rv.cov, C, 1e-6), "fit", lambda: "%s: %r, want %r" % (text, rv.mean, m))
