"""R01 arithmetic, indexing and reshaping of random variables is exact push-forward
(spec/RandVars.tla)."""
import zlib

ASSUMPTIONS = ["operands are independent", "scalar, vector and matrix shapes"]
BUDGET_S = {"quick": 240, "thorough": 2400}
INV = ["CovSymmetric", "PSDMinors", "EmitInv"]


def tlc_runs(tier, seed):
    def K(n, w):
        return dict(MaxOps=n, Wide=w)

    runs = [dict(name="one-op", module="RandVars", constants=K(1, True), invariants=INV),
            dict(name="two-ops", module="RandVars", constants=K(2, tier == "thorough"), invariants=INV)]
    n = 250 if tier == "quick" else 5000
    for i, d in enumerate((3, 4, 6)):
        runs.append(dict(name="simulate-%d" % d, module="RandVars", constants=K(d, True), invariants=INV,
                         simulate=n, depth=d + 5, seed=seed + i))
    return runs


def names(hist):
    return [h["op"] + (":" + str(h.get("key", h.get("shape", h.get("s", "")))) if h["op"] in
                       ("index", "reshape", "muls", "smul", "divs") else
                       (":%s%s" % (h["rv"]["rep"], tuple(h["rv"]["shape"])) if "rv" in h else "")) for h in hist]


def replay(case, ctx):
    # asking for the covariance factor is a stuttering step that may happen between any two steps
    run(case, ctx, False)
    run(case, ctx, True)


def run(case, ctx, warm):
    import numpy as np
    from props import _linops as L, _randvars as R

    hist = case["hist"]
    make = (lambda l: R.warm(R.make(l))) if warm else R.make
    rv = make(hist[0]["rv"])
    what = names(hist) + ["factor known at every step"] * warm
    ops = hist[1:]
    for i, h in enumerate(ops):
        operand = rv
        before = (np.array(R.todense(rv.mean)), np.array(R.todense(rv.cov)))
        if case["refused"] and i == len(ops) - 1:
            try:
                R.apply(rv, h, rv.shape, make)
            except Exception:
                ctx.count("refused")
                return
            ctx.fail("incompatible-shapes-refused", str(what))
            return
        rv = R.apply(rv, h, rv.shape, make)
        if warm:
            R.warm(rv)
        ctx.check(np.array_equal(R.todense(operand.mean), before[0]) and np.array_equal(R.todense(operand.cov), before[1]),
                  "operand-unchanged", lambda: "%s changed its operand" % what[: i + 2])
    shape = tuple(case["shape"])
    mean = (np.array(case["mean"], dtype=float) / case["md"]).reshape(shape)
    n = mean.size
    cov = np.array(case["cov"], dtype=float) / case["cd"]
    ctx.count("random-variables")
    say = lambda name, got, exp: (lambda: "%s of %s\n got %r\n expected %r" % (name, what, got, exp))
    ctx.check(rv.shape == shape and rv.ndim == len(shape) and rv.size == n, "shape", say("shape", rv.shape, shape))
    gm = R.todense(rv.mean)
    ctx.check(L.close(gm, mean), "mean", say("mean", gm, mean))
    gc = R.todense(rv.cov)
    ec = cov if shape != () else cov.reshape(())
    ctx.check(L.close(gc, ec), "covariance", say("cov", gc, ec))
    ctx.check(L.close(rv.var, np.diag(cov).reshape(shape)), "variance", say("var", rv.var, np.diag(cov)))
    ctx.check(L.close(rv.std, np.sqrt(np.diag(cov)).reshape(shape)), "standard-deviation", say("std", rv.std, np.diag(cov)))
    pd = n and np.min(np.linalg.eigvalsh(cov)) > 1e-3
    if pd:
        ctx.check(rv.cov_cholesky.shape == rv.cov.shape, "cholesky-shape", say("cov_cholesky.shape", rv.cov_cholesky.shape, rv.cov.shape))
        C = R.todense(rv.cov_cholesky).reshape(n, n)
        ctx.check(L.close(C @ C.T, cov, 1e-6), "cholesky-factor", say("cov_cholesky", C, cov))
        ctx.check(L.close(np.tril(C), C), "cholesky-lower-triangular", say("cov_cholesky", C, cov))
        x = mean + 0.5
        v = (x - mean).ravel()
        lp = -0.5 * (v @ np.linalg.solve(cov, v) + np.linalg.slogdet(cov)[1] + n * np.log(2 * np.pi))
        got = rv.logpdf(x)
        ctx.check(abs(float(got) - lp) < 1e-6 * (1 + abs(lp)), "logpdf", say("logpdf", got, lp))
        got = rv.pdf(x)
        ctx.check(abs(float(got) - np.exp(lp)) < 1e-6 * (1 + np.exp(lp)), "pdf", say("pdf", got, np.exp(lp)))
        got = rv.entropy
        ent = 0.5 * (n * np.log(2 * np.pi * np.e) + np.linalg.slogdet(cov)[1])
        ctx.check(abs(float(got) - ent) < 1e-6 * (1 + abs(ent)), "entropy", say("entropy", got, ent))
        xs = np.stack([x, mean, mean - 1.0, x + 0.25])
        vs = (xs - mean).reshape(4, n)
        lps = -0.5 * (np.sum(vs * np.linalg.solve(cov, vs.T).T, axis=1) + np.linalg.slogdet(cov)[1] + n * np.log(2 * np.pi))
        got = rv.logpdf(xs)
        ctx.check(L.close(got, lps, 1e-6), "logpdf-of-several-points", say("logpdf", got, lps))
        if shape == ():
            from math import erf
            sd = np.sqrt(cov[0, 0])
            got = rv.cdf(mean + sd)
            ctx.check(abs(float(got) - 0.5 * (1 + erf(1 / np.sqrt(2)))) < 1e-7, "cdf", say("cdf one deviation up", got, None))
            got = rv.quantile(0.8413447460685429)
            ctx.check(L.close(got, mean + sd, 1e-6), "quantile", say("quantile", got, mean + sd))
            ctx.check(L.close(rv.median, mean), "median", say("median", rv.median, mean))
    ctx.check(L.close(R.todense(rv.mode), mean), "mode", say("mode", rv.mode, mean))
    if not warm and n:
        samples(rv, shape, mean, cov, what, ctx)
    ctx.sample = what


def samples(rv, shape, mean, cov, what, ctx):
    """realizations have the law of the random variable; the dimensions of the sample size lead"""
    import numpy as np

    rng = np.random.default_rng(7)
    for size in ((), (3,), (2, 3)):
        got = np.shape(rv.sample(rng, size))
        ctx.check(got == size + shape, "sample-shape", lambda: "sample(%r) of %s has shape %r" % (size, what, got))
    h = zlib.crc32(str(what).encode())
    if h % 12:
        return
    N = 600
    X = np.asarray(rv.sample(rng, (N,))).reshape(N, -1) - mean.ravel()
    sd = np.sqrt(np.diag(cov))
    bad = np.abs(X.mean(axis=0)) > 7 * sd / np.sqrt(N) + 1e-7 * (1 + np.abs(mean.ravel()))
    ctx.check(not np.any(bad), "sample-mean", lambda: "samples of %s: mean off by %r" % (what, X.mean(axis=0)))
    # Var of x_i x_j is at most 3 c_ii c_jj
    lim = 7 * np.sqrt(3.0 / N) * np.outer(sd, sd) + 1e-6 * (1 + np.max(cov))
    C = X.T @ X / N
    ctx.check(np.all(np.abs(C - cov) <= lim), "sample-covariance", lambda: "samples of %s: second moments %r, expected %r" % (what, C, cov))
