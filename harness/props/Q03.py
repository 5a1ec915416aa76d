"""Q03 kernel embeddings and integration measures (spec/Embed.tla)."""
from ._thin import thin

ASSUMPTIONS = ["points inside the integration domain", "integrals of the exponentiated quadratic kernel are compared with composite Gauss-Legendre and trapezoidal sums"]
BUDGET_S = {"quick": 200, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["ClosedMean", "ClosedVar", "EmitInv"]


def tlc_runs(tier, seed):
    q = tier == "quick"
    return [dict(name="line", module="Embed", invariants=INV, constants=dict(Dims="{1}", Nus="{0, 1, 2, 3}", MaxW=6)),
            dict(name="plane", module="Embed", invariants=INV, filter=thin(900 if q else 100000),
                 constants=dict(Dims="{2}", Nus="{0, 1, 2, 3}", MaxW=3 if q else 5)),
            dict(name="space", module="Embed", invariants=INV, simulate=300 if q else 5000, depth=14, seed=seed,
                 constants=dict(Dims="{3}", Nus="{0, 1, 2, 3}", MaxW=6))]


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
    from probnum.quad.kernel_embeddings import KernelEmbedding
    from probnum.randprocs.covfuncs import ExpQuad, Matern, ProductMatern

    L = np.log(2.0)
    p = np.array(case["nus"])
    dim = len(p)
    label = "nus %r cells left %r right %r" % (case["nus"], case["le"], case["ri"])
    h = zlib.crc32(label.encode())
    rnd = np.random.RandomState(h % 2 ** 31)
    nus = p + 0.5
    ell = rnd.choice([0.3, 1.0, 2.5], size=dim) if h % 3 else np.full(dim, rnd.choice([0.3, 1.0, 2.5]))
    w = L * ell / np.sqrt(2 * nus)
    x = rnd.choice([0.0, -3.0, 1.25], size=dim)
    lo, hi = x - np.array(case["le"]) * w, x + np.array(case["ri"]) * w
    powers = L ** np.arange(5)
    unit = ell / np.sqrt(2 * nus)
    want_m = np.prod(np.array(case["mean"]) @ powers / 960.0 * unit)
    want_v = np.prod(np.array(case["var"]) @ powers / 960.0 * unit ** 2)
    normalized = bool((h // 5) % 2)
    nc = 1.0 / np.prod(hi - lo) if normalized else 1.0
    if dim == 1 and h % 2:
        meas = LebesgueMeasure(domain=(float(lo[0]), float(hi[0])), normalized=normalized)
    else:
        meas = LebesgueMeasure(domain=(lo, hi), input_dim=dim if h % 5 == 0 else None, normalized=normalized)
    kernels = [ProductMatern(input_shape=(dim,), lengthscales=ell, nus=nus)]
    if dim == 1:
        kernels.append(Matern(input_shape=(1,), lengthscales=float(ell[0]), nu=float(nus[0])))
    elif len(set(p)) == 1 and len(set(ell)) == 1:
        kernels.append(ProductMatern(input_shape=(dim,), lengthscales=float(ell[0]), nus=float(nus[0])))
    # the mirror image of the point has the same mean (also checks several points at once)
    X = np.stack([x, lo + hi - x, 0.5 * (lo + hi)])
    scale = nc * np.prod(hi - lo)
    for kern in kernels:
        emb = KernelEmbedding(kern, meas)
        got = np.asarray(emb.kernel_mean(X))
        ctx.check(got.shape == (3,) and np.allclose(got[:2], want_m * nc, rtol=1e-9, atol=1e-10 * scale), "matern-kernel-mean",
                  lambda: "%s lengthscales %r domain %r: %r, exact %r" % (label, ell, (lo, hi), got, want_m * nc))
        v = emb.kernel_variance()
        ctx.check(np.shape(v) == () and np.allclose(v, want_v * nc ** 2, rtol=1e-8, atol=1e-10 * scale ** 2), "matern-kernel-variance",
                  lambda: "%s lengthscales %r domain %r: %r, exact %r" % (label, ell, (lo, hi), v, want_v * nc ** 2))
        # the variance is the mean of the means
        g, gw = np.polynomial.legendre.leggauss(24)
        if dim == 1:
            cells = np.linspace(lo[0], hi[0], case["le"][0] + case["ri"][0] + 1)
            acc = 0.0
            for a, b in zip(cells[:-1], cells[1:]):
                acc += 0.5 * (b - a) * np.sum(gw * emb.kernel_mean((0.5 * (a + b) + 0.5 * (b - a) * g)[:, None]))
            ctx.check(np.allclose(acc * nc, v, rtol=1e-7, atol=1e-10 * scale ** 2), "variance-is-mean-of-means", lambda: "%s: %r vs %r" % (label, acc * nc, v))
    # exponentiated quadratic kernel over the same box, cell by cell
    le_ = float(ell[0])
    eq = ExpQuad(input_shape=(dim,), lengthscales=le_)
    g, gw = np.polynomial.legendre.leggauss(30)
    m1 = np.ones(3)
    v1 = 1.0
    for i in range(dim):
        cells = np.linspace(lo[i], hi[i], 2 * (case["le"][i] + case["ri"][i]) + 1)
        nodes = np.concatenate([0.5 * (a + b) + 0.5 * (b - a) * g for a, b in zip(cells[:-1], cells[1:])])
        ws = np.concatenate([0.5 * (b - a) * gw for a, b in zip(cells[:-1], cells[1:])])
        m1 = m1 * (np.exp(-0.5 * (X[:, i, None] - nodes) ** 2 / le_ ** 2) @ ws)
        v1 = v1 * (ws @ np.exp(-0.5 * (nodes[:, None] - nodes) ** 2 / le_ ** 2) @ ws)
    emb = KernelEmbedding(eq, meas)
    got, v = np.asarray(emb.kernel_mean(X)), emb.kernel_variance()
    ctx.check(got.shape == (3,) and np.allclose(got, m1 * nc, rtol=1e-9, atol=1e-10 * scale), "expquad-kernel-mean",
              lambda: "%s lengthscale %r domain %r: %r, exact %r" % (label, le_, (lo, hi), got, m1 * nc))
    ctx.check(np.shape(v) == () and np.allclose(v, v1 * nc ** 2, rtol=1e-8, atol=1e-10 * scale ** 2), "expquad-kernel-variance",
              lambda: "%s lengthscale %r domain %r: %r, exact %r" % (label, le_, (lo, hi), v, v1 * nc ** 2))
    # densities and samples of the Lebesgue measure
    ctx.check(np.allclose(meas(X), np.full(3, nc)) and meas(X).shape == (3,), "lebesgue-density", lambda: "%s: %r" % (label, meas(X)))
    unitm = LebesgueMeasure(domain=(np.zeros(dim), np.ones(dim)))
    for n in (1, 4):
        s, u = meas.sample(n, rng=np.random.default_rng(7)), unitm.sample(n, rng=np.random.default_rng(7))
        ctx.check(s.shape == (n, dim) and np.all(u >= 0) and np.all(u <= 1) and np.allclose(s, lo + u * (hi - lo)), "lebesgue-samples",
                  lambda: "%s: %r from %r" % (label, s, u))
    # Gaussian measures
    if dim <= 2:
        A = rnd.uniform(-1, 1, size=(dim, dim))
        cov = np.diag(ell ** 2) + (0.8 * A @ A.T if h % 2 else 0.0)
        mean = x + 0.3
        how = (h // 11) % 3
        if dim == 1 and how == 0:
            gm = GaussianMeasure(mean=float(mean[0]), cov=float(cov[0, 0]))
        elif how == 1:
            cov, mean = cov[0, 0] * np.eye(dim), np.full(dim, mean[0])
            gm = GaussianMeasure(mean=float(mean[0]), cov=float(cov[0, 0]), input_dim=dim)
        else:
            gm = GaussianMeasure(mean=mean, cov=cov)

        def expect(center, C):
            """E exp(-|center - Z|^2 / (2 l^2)), Z ~ N(0, C), by the trapezoidal rule"""
            # integrate exp(-|r|^2/2l^2) N(r; center, C) over r
            n = 401 if dim == 1 else 181
            T = 7.5
            grid = np.linspace(-T, T, n)
            if dim == 1:
                R = grid[:, None] * np.sqrt(C[0, 0]) + center
                wts = np.exp(-0.5 * grid ** 2) * (grid[1] - grid[0]) / np.sqrt(2 * np.pi)
            else:
                Lc = np.linalg.cholesky(C)
                G = np.stack(np.meshgrid(grid, grid, indexing="ij"), axis=-1).reshape(-1, 2)
                R = G @ Lc.T + center
                wts = np.exp(-0.5 * np.sum(G ** 2, axis=1)) * (grid[1] - grid[0]) ** 2 / (2 * np.pi)
            return np.sum(wts * np.exp(-0.5 * np.sum(R ** 2, axis=1) / le_ ** 2))

        emb = KernelEmbedding(eq, gm)
        got, v = np.asarray(emb.kernel_mean(X)), emb.kernel_variance()
        want = np.array([expect(mean - z, cov) for z in X])
        ctx.check(got.shape == (3,) and np.allclose(got, want, rtol=1e-7, atol=1e-11), "gauss-kernel-mean",
                  lambda: "%s lengthscale %r mean %r cov %r: %r, exact %r" % (label, le_, mean, cov, got, want))
        wv = expect(np.zeros(dim), 2 * cov)
        ctx.check(np.shape(v) == () and np.allclose(v, wv, rtol=1e-7, atol=1e-11), "gauss-kernel-variance",
                  lambda: "%s lengthscale %r cov %r: %r, exact %r" % (label, le_, cov, v, wv))
        dens = np.array([np.exp(-0.5 * (z - mean) @ np.linalg.solve(cov, z - mean)) / np.sqrt(np.linalg.det(2 * np.pi * cov)) for z in X])
        dv = gm(X)
        ctx.check(dv.shape == (3,) and np.allclose(dv, dens, rtol=1e-8, atol=1e-300), "gauss-density", lambda: "%s: %r, exact %r" % (label, dv, dens))
        for n in (1, 3):
            s = gm.sample(n, rng=np.random.default_rng(5))
            ctx.check(s.shape == (n, dim), "gauss-sample-shape", lambda: "%s: %r" % (label, s.shape))
    ctx.sample = label
