"""G02 Gauss-Markov transitions: forward and backward operations are exact (spec/Transitions.tla)."""
import itertools

from ._thin import fewer

ASSUMPTIONS = ["positive definite predicted covariances", "LinearSDE integrates its moment equations with tolerances 1e-9"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 90
INV = ["Semigroup", "NoNews", "ValueIsUpdate", "Valid", "EmitInv"]
FAST = {"disc1", "disc2", "disc3", "tv", "meas", "exactmeas", "tall", "iwp0", "iwp1", "iwp2", "iwp1x2", "nil2", "nil2d",
        "nil3", "ou", "ioup", "ioupx2", "matern1", "matern2"}
SLOW = {"lin1", "lin2"}


def tlc_runs(tier, seed):
    q = tier == "quick"
    slow = dict(filter=fewer(lambda e: e["sys"] in SLOW, 4)) if q else {}
    runs = [dict(name="exhaustive-1", module="Transitions", constants=dict(Systems=FAST | SLOW, MaxOps=1), invariants=INV, **slow),
            dict(name="simulate-3", module="Transitions", constants=dict(Systems=FAST | SLOW, MaxOps=3), invariants=INV,
                 simulate=220 if q else 6000, depth=6, seed=seed, **slow),
            dict(name="simulate-7", module="Transitions", constants=dict(Systems=FAST, MaxOps=7), invariants=INV,
                 simulate=70 if q else 4000, depth=10, seed=seed)]
    if not q:
        runs.append(dict(name="exhaustive-2", module="Transitions", constants=dict(Systems=FAST, MaxOps=2), invariants=INV))
    return runs


def sde(name):
    """(drift, force, dispersion) of the continuous systems"""
    import numpy as np

    lam = 2.0
    if name == "ou":
        return np.array([[-lam]]), np.zeros(1), np.ones((1, 1))
    if name == "ioup":
        return np.array([[0.0, 1.0], [0.0, -lam]]), np.zeros(2), np.array([[0.0], [1.0]])
    if name == "ioupx2":
        F, _, L = sde("ioup")
        return np.kron(np.eye(2), F), np.zeros(4), np.kron(np.eye(2), L)
    if name == "matern1":
        r = np.sqrt(3.0) / 0.7
        return np.array([[0.0, 1.0], [-r * r, -2 * r]]), np.zeros(2), np.array([[0.0], [1.0]])
    if name == "matern2":
        r = np.sqrt(5.0) / 2.0
        return (np.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-r ** 3, -3 * r * r, -3 * r]]), np.zeros(3),
                np.array([[0.0], [0.0], [1.0]]))
    N2, N3 = np.diag([1.0], 1), np.diag([1.0, 1.0], 1)
    return {"nil2": (N2, np.array([1.0, -3.0]), np.eye(2)), "nil2d": (N2, np.array([1.0, -3.0]), np.array([[1.0], [2.0]])),
            "nil3": (N3, np.array([1.0, 0.0, 2.0]), np.array([[0.0], [0.0], [1.0]]))}[name]


def discretised(name, h):
    """reference discretisation by step doubling from a tiny Taylor step"""
    import numpy as np

    F, u, L = sde(name)
    n = len(F)
    e = h / 2.0 ** 24
    A = np.eye(n) + e * F + (e * e / 2) * F @ F
    s = e * u + (e * e / 2) * F @ u
    W = L @ L.T
    Q = e * W + (e * e / 2) * (F @ W + W @ F.T) + (e ** 3 / 6) * (F @ F @ W + 2 * F @ W @ F.T + W @ F.T @ F.T)
    for _ in range(24):
        Q = A @ Q @ A.T + Q
        s = A @ s + s
        A = A @ A
    return A, s, Q


def build(name, fwd, bwd):
    import numpy as np
    from probnum import randprocs, randvars
    from props._gauss import mat

    D, C, I = randprocs.markov.discrete, randprocs.markov.continuous, randprocs.markov.integrator
    impl = dict(forward_implementation=fwd, backward_implementation=bwd)
    if name.startswith("iwp"):
        q, d = {"iwp0": (0, 1), "iwp1": (1, 1), "iwp2": (2, 1), "iwp1x2": (1, 2)}[name]
        return I.IntegratedWienerTransition(num_derivatives=q, wiener_process_dimension=d, **impl)
    if name in ("ou", "ioup", "ioupx2"):
        return I.IntegratedOrnsteinUhlenbeckTransition(
            num_derivatives=0 if name == "ou" else 1, wiener_process_dimension=2 if name == "ioupx2" else 1,
            driftspeed=2.0, **impl)
    if name.startswith("matern"):
        q = int(name[-1])
        return I.MaternTransition(num_derivatives=q, wiener_process_dimension=1, lengthscale=0.7 if q == 1 else 2.0, **impl)
    if name.startswith("nil"):
        F, u, L = sde(name)
        return C.LTISDE(drift_matrix=F, force_vector=u, dispersion_matrix=L, **impl)
    if name == "lin1":
        return C.LinearSDE(state_dimension=1, wiener_process_dimension=1,
                           drift_matrix_function=lambda t: np.array([[-1.0 / (1.0 + t)]]),
                           force_vector_function=lambda t: np.ones(1), dispersion_matrix_function=lambda t: np.ones((1, 1)),
                           mde_atol=1e-9, mde_rtol=1e-9, mde_solver="DOP853", forward_implementation=fwd)
    if name == "lin2":
        return C.LinearSDE(state_dimension=2, wiener_process_dimension=2,
                           drift_matrix_function=lambda t: np.array([[0.0, 1.0], [0.0, 0.0]]),
                           force_vector_function=lambda t: np.array([t, 1.0]),
                           dispersion_matrix_function=lambda t: np.eye(2),
                           mde_atol=1e-9, mde_rtol=1e-9, mde_solver="DOP853", forward_implementation=fwd)
    return None


def discrete(name, ops, fwd, bwd):
    import numpy as np
    from probnum import randprocs, randvars
    from props._gauss import mat

    D = randprocs.markov.discrete
    impl = dict(forward_implementation=fwd, backward_implementation=bwd)
    table = {o["tau"]: (mat(o["A"]), mat(o["s"])[:, 0], mat(o["Q"])) for o in ops}
    A, s, Q = next(iter(table.values()))
    if name == "tv":
        return D.LinearGaussian(input_dim=2, output_dim=2, transition_matrix_fun=lambda t: table[int(round(t))][0],
                                noise_fun=lambda t: randvars.Normal(table[int(round(t))][1], table[int(round(t))][2]), **impl)
    if name == "exactmeas":
        return D.LTIGaussian.from_linop(A, s, **impl)
    return D.LTIGaussian(transition_matrix=A, noise=randvars.Normal(s, Q), **impl)


def replay(case, ctx):
    import numpy as np
    import probnum
    from probnum import linops, randvars
    from props._gauss import close, known, mat

    name, ops = case["sys"], case["ops"]
    lin = name.startswith("lin")
    cont = "A" not in ops[0] or build(name, "classic", "classic") is not None
    combos = [(f, b, False) for f, b in itertools.product(("classic", "sqrt"), ("classic", "sqrt", "joseph"))]
    if lin:
        combos = [("classic", "classic", False), ("sqrt", "classic", False)]
    if name.startswith(("disc", "iwp", "meas", "tall")):
        combos.append(("classic", "classic", True))
    tol = 1e-5 if lin else 1e-7
    # the beliefs the operations must produce
    m, P = mat(case["m0"])[:, 0], mat(case["P0"])
    want = []
    for o in ops:
        if "A" in o:
            A, s, Q = mat(o["A"]), mat(o["s"])[:, 0], mat(o["Q"])
        else:
            A, s, Q = discretised(name, o["k"] / 2.0)
        Q = Q * o["s2"][0] / o["s2"][1]
        fm, fP, cross = A @ m + s, A @ P @ A.T + Q, P @ A.T
        gain = np.linalg.solve(fP, cross.T).T
        w = dict(m=m, P=P, fm=fm, fP=fP, cross=cross, gain=gain)
        if o["op"] == "fwd":
            w["res"] = (fm, fP)
        else:
            om, oP = mat(o["o"]["m"])[:, 0], mat(o["o"]["P"])
            w["res"] = (m + gain @ (om - fm), P + gain @ (oP - fP) @ gain.T)
            w["o"] = (om, oP)
        if known(o["res"]):
            ctx.count("exact-beliefs")
            assert close(mat(o["res"]["m"])[:, 0], w["res"][0]) and close(mat(o["res"]["P"]), w["res"][1]), "oracle"
        if o["op"] == "bwd" or A.shape[0] == A.shape[1]:
            m, P = w["res"]
        want.append(w)

    def dense(c):
        return c.todense() if isinstance(c, linops.LinearOperator) else np.asarray(c)

    for fwd, bwd, mf in combos:
        with probnum.config(matrix_free=mf):
            tr = build(name, fwd, bwd) if cont else discrete(name, ops, fwd, bwd)
            if mf and not cont:
                A0 = mat(ops[0]["A"])
                from probnum.randprocs.markov import discrete as D
                tr = D.LTIGaussian(transition_matrix=linops.aslinop(A0),
                                   noise=randvars.Normal(mat(ops[0]["s"])[:, 0], linops.aslinop(mat(ops[0]["Q"]))))
            P0 = mat(case["P0"])
            rv = randvars.Normal(mat(case["m0"])[:, 0], linops.aslinop(P0) if mf else P0)

            def same(x, mm, PP):
                return close(x.mean, mm, tol) and close(dense(x.cov), PP, tol)

            for n, (o, w) in enumerate(zip(ops, want)):
                t = o["tau"] / 2.0 if cont else float(o["tau"])
                kw = dict(t=t, _diffusion=o["s2"][0] / o["s2"][1])
                if cont:
                    kw["dt"] = o["k"] / 2.0
                label = "%s %s/%s%s step %d of %s" % (name, fwd, bwd, " matrix-free" if mf else "", n,
                                                     [(x["op"], x["k"], x["s2"], x.get("value")) for x in ops])
                ctx.count("operations")
                frv, info = tr.forward_rv(rv, compute_gain=True, **kw)
                ctx.check(same(frv, w["fm"], w["fP"]), "forward",
                          lambda: "%s\n got %r %r\n want %r %r" % (label, frv.mean, dense(frv.cov), w["fm"], w["fP"]))
                if not lin:
                    ctx.check(close(dense(info["crosscov"]), w["cross"], tol), "crosscov", lambda: "%s: %r" % (label, info["crosscov"]))
                    ctx.check(close(dense(info["gain"]), w["gain"], 10 * tol), "gain",
                              lambda: "%s\n got %r\n want %r" % (label, dense(info["gain"]), w["gain"]))
                plain, info2 = tr.forward_rv(rv, **kw)
                ctx.check(same(plain, w["fm"], w["fP"]), "forward-without-gain", label)
                if not mf:
                    F = frv.cov_cholesky
                    ctx.check(close(F @ F.T, w["fP"], tol), "forward-factor", label)
                if o["op"] == "fwd":
                    if not mf and "exact" not in name and np.linalg.norm(dense(rv.cov)) > 0 and not (lin and fwd == "sqrt"):
                        x0 = np.array(rv.mean)
                        fr, _ = tr.forward_realization(x0, **kw)
                        Qs = w["fP"] - (w["cross"].T @ np.linalg.solve(w["P"], w["cross"]))
                        ctx.check(close(fr.mean, w["fm"], tol) and close(dense(fr.cov), Qs, max(tol, 1e-6) * 10),
                                  "forward-realization", lambda: "%s: %r %r want %r" % (label, fr.mean, fr.cov, Qs))
                    nxt = frv
                    if w["fm"].shape != w["m"].shape:
                        nxt = rv
                else:
                    om, oP = w["o"]
                    ocov = linops.aslinop(oP) if mf else oP
                    ways = []
                    obt = randvars.Normal(om, ocov) if not o["value"] else randvars.Normal(om, ocov, cov_cholesky=ocov)
                    args = [dict(), dict(rv_forwarded=frv, gain=info.get("gain")), dict(gain=info.get("gain"))]
                    for a in args:
                        ways.append(("rv", tuple(sorted(k for k, v in a.items() if v is not None)),
                                     lambda a=a: tr.backward_rv(obt, rv, **a, **kw)))
                    if o["value"] and not mf:
                        for a in args:
                            ways.append(("realization", tuple(sorted(k for k, v in a.items() if v is not None)),
                                         lambda a=a: tr.backward_realization(om, rv, **a, **kw)))
                    nxt = None
                    for what, given, call in ways:
                        got, binfo = call()
                        ctx.check(same(got, *w["res"]), "backward",
                                  lambda: "%s via %s given %s\n got %r %r\n want %r" % (label, what, given, got.mean, dense(got.cov), w["res"]))
                        fw = binfo.get("rv_forwarded") if isinstance(binfo, dict) else None
                        if fw is not None:
                            ctx.check(same(fw, w["fm"], w["fP"]), "reported-forwarded",
                                      lambda: "%s via %s given %s: %r want %r" % (label, what, given, fw.mean, w["fm"]))
                        if nxt is None:
                            nxt = got
                ctx.check(same(rv, w["m"], w["P"]), "operands-unchanged", label)
                rv = nxt
                # keep rounding from accumulating over the history
                if lin and n + 1 < len(ops):
                    rv = randvars.Normal(want[n + 1]["m"], want[n + 1]["P"])
    ctx.sample = "%s: %s" % (name, [(x["op"], x["k"], x["s2"], x.get("value")) for x in ops])
