"""A03 problinsolve: iterates, beliefs, covariances and termination (spec/ProbLin.tla)."""
from ._linsolve import close, dense, mat, vec
from ._thin import thin

ASSUMPTIONS = ["symmetric positive definite systems", "stopping decisions are compared away from exact ties"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 20
INV = ["PConsistent", "PSym", "PTerminates", "PSolved", "PEmit"]


def tlc_runs(tier, seed):
    q = tier == "quick"
    none = dict(Kinds="{}", Policies="{}", Crits="{}", Systems="{}", MaxSteps=4)
    return [dict(name="all", module="ProbLin", init="PInit", next_="PNext", invariants=INV, timeout=1800, filter=thin(2200 if q else 100000),
                 constants=dict(PSystems="{1, 2, 3, 4, 5, 6, 7, 8}", PPriors="{\"none\", \"x0\", \"Ainv0\", \"Ainv0-rv\", \"A0-rv\", \"both-rv\"}",
                                Tols="{\"tight\", \"loose\", \"rel\", \"huge\"}", Iters="{0, 1, 2, 10}", **none))]


def extra_cases(tier, seed):
    return [dict(num=True, n=n, seed=1000 * seed + k, prior=p, maxiter=m, nb=nb) for k in range(4 if tier == "quick" else 60) for n in (3, 4, 6)
            for p in ("none", "Ainv0", "Ainv0-rv", "A0-rv", "both-rv") for m in (1, 2, 3) for nb in (1, 2) if m * nb < n]


def larger(case, ctx):
    """The machine of ProbLin.tla in floating point for larger systems."""
    import contextlib
    import io
    import warnings

    import numpy as np
    from probnum import linops, randvars
    from probnum.linalg import problinsolve

    n, pr = case["n"], case["prior"]
    rng = np.random.default_rng(case["seed"] + 7 * n + len(pr))

    def spd():
        G = rng.normal(size=(n, n))
        return G @ G.T / n + np.diag(rng.uniform(0.5, 2.0, size=n))

    A, S, S2 = spd(), spd(), spd()
    B = rng.normal(size=(n, case["nb"]))
    I = np.eye(n)
    inv = np.linalg.inv
    H, W, M, V = {"none": (I, I, I, A), "Ainv0": (S, S, inv(S), A), "Ainv0-rv": (S, S2, inv(S), A), "A0-rv": (inv(S), inv(S), S, S2), "both-rv": (S, S2, S2, S)}[pr]
    rv = lambda m, f: randvars.Normal(linops.aslinop(m), linops.SymmetricKronecker(linops.aslinop(f)))
    kw = {}
    if pr == "Ainv0":
        kw["Ainv0"] = S
    if pr in ("Ainv0-rv", "both-rv"):
        kw["Ainv0"] = rv(S, S2)
    if pr in ("A0-rv", "both-rv"):
        kw["A0"] = rv(S, S2) if pr == "A0-rv" else rv(S2, S)

    def upd(m, w, s, y):
        d, ws = y - m @ s, w @ s
        u = ws / (s @ ws)
        return m + np.outer(d, u) + np.outer(u, d) - (s @ d) * np.outer(u, u), w - np.outer(ws, ws) / (s @ ws)

    calls = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        x, Ak, Ainvk, info = problinsolve(A, B[:, 0] if case["nb"] == 1 else B, maxiter=case["maxiter"], atol=1e-14, rtol=1e-14,
                                          callback=lambda **a: calls.append(a), **kw)
    label = "n %d, prior %s, maxiter %d, %d right-hand sides, seed %d" % (n, pr, case["maxiter"], case["nb"], case["seed"])
    i = 0
    for j in range(case["nb"]):
        b = B[:, j]
        xm = H @ b
        r = A @ xm - b
        for k in range(case["maxiter"]):
            s = -H @ r
            y = A @ s
            a = -(s @ r) / (s @ y)
            xm, r = xm + a * s, r + a * y
            M, V = upd(M, V, s, y)
            H, W = upd(H, W, y, s)
            Wb = W @ b
            cov = 0.5 * ((b @ Wb) * W + np.outer(Wb, Wb))
            if not ctx.check(i < len(calls), "number-of-steps", lambda: "%s: %d" % (label, len(calls))):
                return
            c = calls[i]
            i += 1
            for what, got, want in (("solution-mean", c["xk"].mean, xm), ("matrix-mean", dense(c["Ak"].mean), M), ("inverse-mean", dense(c["Ainvk"].mean), H),
                                    ("matrix-cov", dense(c["Ak"].cov.A), V), ("inverse-cov", dense(c["Ainvk"].cov.A), W), ("solution-cov", dense(c["xk"].cov), cov)):
                ctx.check(close(got, want, 1.0 + np.max(np.abs(H)), 1e-6), what, lambda: "%s: step %d: %r, reference %r" % (label, i, got, want))
    ctx.check(len(calls) == i and info["iter"] == case["maxiter"] and info["conv_crit"] == "maxiter", "termination", lambda: "%s: %r" % (label, info))
    ctx.check(close(info["trace_sol_cov"], np.trace(cov), 1.0, 1e-6), "trace-of-covariance", lambda: "%s: %r, reference %r" % (label, info, np.trace(cov)))
    want = xm if case["nb"] == 1 else H @ B
    ctx.check(close(dense(x.mean), want, 1.0, 1e-6), "solution-mean", lambda: "%s: %r, reference %r" % (label, dense(x.mean), want))
    ctx.count("larger systems")
    ctx.sample = label


def replay(case, ctx):
    if "num" in case:
        return larger(case, ctx)
    import contextlib
    import io
    import warnings
    import zlib

    import numpy as np
    import scipy.sparse
    from probnum import linops, randvars
    from probnum.linalg import problinsolve

    cfg, hist, outs = case["cfg"], case["hist"], case["outs"]
    label = "A %r, b %r, prior %s %r, tolerances %s, maxiter %d" % (cfg["A"], cfg["bs"], cfg["prior"], cfg["x0"], cfg["tname"], cfg["maxiter"])
    h = zlib.crc32(label.encode())
    A = np.array(cfg["A"], dtype=float)
    n = A.shape[0]
    B = np.array(cfg["bs"], dtype=float).T
    b = B if B.shape[1] > 1 else (B[:, 0] if h % 3 else B)
    form = ["array", "linop", "sparse"][h // 3 % 3]
    Aarg = {"array": A, "linop": linops.aslinop(A), "sparse": scipy.sparse.csr_matrix(A)}[form]
    p = hist[0]["s"]
    wrap = linops.aslinop if h // 9 % 2 else (lambda a: a)

    def rv(mean, factor):
        return randvars.Normal(wrap(mean), linops.SymmetricKronecker(linops.aslinop(factor)))

    kw = {}
    pr = cfg["prior"]
    if pr == "x0":
        x0 = np.array(cfg["x0"], dtype=float)
        kw["x0"] = x0 if h // 18 % 2 else x0[:, None]
    elif pr == "Ainv0":
        kw["Ainv0"] = wrap(mat(p["H"]))
    else:
        if pr in ("Ainv0-rv", "both-rv"):
            kw["Ainv0"] = rv(mat(p["H"]), mat(p["W"]))
        if pr in ("A0-rv", "both-rv"):
            kw["A0"] = rv(mat(p["M"]), mat(p["V"]))
    tol = lambda t: t[0] / t[1] if t[0] else (1e-6 if cfg["tname"] == "tight" else 1e-8)
    if cfg["tname"] != "tight" or h % 2:
        kw.update(atol=tol(cfg["tol"]["atol"]), rtol=tol(cfg["tol"]["rtol"]))
    if cfg["maxiter"] < 10 * n or h // 5 % 2:
        kw["maxiter"] = cfg["maxiter"]

    calls = []
    keep = {k: np.array(v) for k, v in kw.items() if isinstance(v, np.ndarray)}
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        x, Ak, Ainvk, info = problinsolve(Aarg, b, callback=lambda **a: calls.append(a), **kw)
    ctx.count("runs")
    steps = [e for e in hist if e["k"] > 0]
    last = hist[-1]
    ctx.check(len(calls) == len(steps), "number-of-steps", lambda: "%s: %d, expected %d" % (label, len(calls), len(steps)))
    ctx.check(info["iter"] == outs[-1]["iter"] and info["conv_crit"] == outs[-1]["crit"], "termination",
              lambda: "%s: %r, expected %r after %d" % (label, info, outs[-1]["crit"], outs[-1]["iter"]))
    ctx.check(info["maxiter"] == kw.get("maxiter", 10 * n), "maxiter-reported", lambda: "%s: %r" % (label, info))
    ctx.check(close(info["resid_l2norm"], np.linalg.norm(vec(outs[-1]["r"]))), "residual-norm", lambda: "%s: %r" % (label, info))
    ctx.check(close(info["trace_sol_cov"], mat(outs[-1]["tr"])[0, 0]), "trace-of-covariance", lambda: "%s: %r, exact %r" % (label, info, mat(outs[-1]["tr"])))

    def factor(cov):
        return dense(cov.A)

    def check(what, e, xrv, arv, irv, resid):
        s = e["s"]
        ctx.check(close(xrv.mean, vec(s["x"])), "solution-mean", lambda: "%s %s: %r, exact %r" % (label, what, xrv.mean, vec(s["x"])))
        ctx.check(close(dense(arv.mean), mat(s["M"])), "matrix-mean", lambda: "%s %s: %r, exact %r" % (label, what, dense(arv.mean), mat(s["M"])))
        ctx.check(close(dense(irv.mean), mat(s["H"])), "inverse-mean", lambda: "%s %s: %r, exact %r" % (label, what, dense(irv.mean), mat(s["H"])))
        ctx.check(close(factor(arv.cov), mat(s["V"])), "matrix-cov", lambda: "%s %s: %r, exact %r" % (label, what, factor(arv.cov), mat(s["V"])))
        ctx.check(close(factor(irv.cov), mat(s["W"])), "inverse-cov", lambda: "%s %s: %r, exact %r" % (label, what, factor(irv.cov), mat(s["W"])))
        ctx.check(close(dense(xrv.cov), mat(e["cov"])), "solution-cov", lambda: "%s %s: %r, exact %r" % (label, what, dense(xrv.cov), mat(e["cov"])))
        if resid is not None:
            ctx.check(close(np.ravel(resid), vec(s["r"])), "residual", lambda: "%s %s: %r" % (label, what, resid))

    prev = {}
    before = None
    acts = [vec(a) for a in case["acts"]]
    for i, (e, a) in enumerate(zip(steps, calls)):
        check("step %d" % (i + 1), e, a["xk"], a["Ak"], a["Ainvk"], a["resid"])
        s, y = np.ravel(a["sk"]), np.ravel(a["yk"])
        ctx.check(close(y, A @ s, 1e-6), "observation", lambda: "%s step %d" % (label, i + 1))
        ctx.check(abs(s @ acts[i]) >= (1 - 1e-9) * np.linalg.norm(s) * np.linalg.norm(acts[i]), "search-direction",
                  lambda: "%s step %d: %r, exact %r" % (label, i + 1, s, acts[i]))
        start = vec([g for g in hist if g["j"] == e["j"] and g["k"] == e["k"] - 1][0]["s"]["x"])
        ctx.check(close(start + np.squeeze(a["alphak"]) * s, vec(e["s"]["x"])), "step", lambda: "%s step %d" % (label, i + 1))
    if B.shape[1] == 1:
        check("result", last, x, Ak, Ainvk, None)
    else:
        ctx.check(close(dense(x.mean), mat(last["s"]["H"]) @ B), "solutions", lambda: "%s: %r, exact %r" % (label, dense(x.mean), mat(last["s"]["H"]) @ B))
        ctx.check(close(dense(Ainvk.mean), mat(last["s"]["H"])) and close(dense(Ak.mean), mat(last["s"]["M"])), "inverse-mean", lambda: label)
    ctx.check(np.array_equal(dense(Aarg) if form != "sparse" else Aarg.toarray(), A) and all(np.array_equal(kw[k], v) for k, v in keep.items()), "arguments-unchanged", lambda: label)
    # calibrated uncertainty: the observed directions stay known, and explored directions are certain
    if pr in ("none", "x0", "Ainv0") and B.shape[1] == 1 and h // 4 % (3 if ctx.tier == "quick" else 1) == 0:
        cal = [0.5, 3.0, "adhoc", "weightedmean"][h // 11 % 4]
        calls = []
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            x, Ak, Ainvk, info = problinsolve(Aarg, b, callback=lambda **a: calls.append(a), calibration=cal, **kw)
        what = "%s, calibration %r" % (label, cal)
        ctx.check(len(calls) == info["iter"] and info["iter"] <= n, "calibrated-steps", lambda: "%s: %r" % (what, info))
        for i, a in enumerate(calls):
            for s, y in ((np.ravel(c["sk"]), np.ravel(c["yk"])) for c in calls[:i + 1]):
                ctx.check(close(a["Ak"].mean @ s, y, 1e-3) and close(a["Ainvk"].mean @ y, s, 1e-3), "calibrated-means", lambda: what)
                ctx.check(np.max(np.abs(factor(a["Ainvk"].cov) @ y)) <= 1e-7 * (1 + np.max(np.abs(y))), "calibrated-covariance",
                          lambda: "%s: %r" % (what, factor(a["Ainvk"].cov) @ y))
            if i < len(steps):
                ctx.check(close(a["xk"].mean, vec(steps[i]["s"]["x"])), "calibrated-solution", lambda: what)
    ctx.sample = label
