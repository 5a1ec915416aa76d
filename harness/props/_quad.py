"""Concrete Bayesian quadrature problems whose kernel values are powers of two."""
import numpy as np

LN2 = np.log(2.0)


class Problem:
    """A kernel, a measure and the points of the specification."""

    def __init__(self, kern, h):
        from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
        from probnum.randprocs.covfuncs import ExpQuad, Matern, ProductMatern

        ell = [1.0, 0.5, 3.0][h % 3]
        ell2 = [1.0, 2.0, 0.25][(h // 3) % 3]
        off = [0.0, -1.5, 10.0][(h // 9) % 3]
        if kern == "m1":
            pts, d = [[0], [1], [2], [3], [4]], ell * LN2
            self.points = off + d * np.array(pts, dtype=float)
            normalized = bool((h // 27) % 2)
            self.measure = LebesgueMeasure(domain=(off, off + 4 * d), input_dim=1, normalized=normalized)
            nc = 1.0 / (4 * d) if normalized else 1.0
            self.kernel = (Matern(input_shape=(1,), lengthscales=ell, nu=0.5) if (h // 54) % 2
                           else ProductMatern(input_shape=(1,), lengthscales=ell, nus=0.5))
            self.unit = ell * nc
            self.kvar = 2 * ell ** 2 * (4 * LN2 + 2.0 ** -4 - 1) * nc ** 2
            self.density = np.full(5, nc)
            self.domain = None if normalized else (off, off + 4 * d)
        elif kern == "m2":
            pts = [[0, 0], [1, 2], [2, 1], [1, 1], [2, 0]]
            d = np.array([ell, ell2]) * LN2
            lo = np.array([off, 1.0])
            self.points = lo + d * np.array(pts, dtype=float)
            normalized = bool((h // 27) % 2)
            self.measure = LebesgueMeasure(domain=(lo, lo + 2 * d), normalized=normalized)
            nc = 1.0 / np.prod(2 * d) if normalized else 1.0
            self.kernel = ProductMatern(input_shape=(2,), lengthscales=np.array([ell, ell2]), nus=0.5)
            self.unit = ell * ell2 * nc
            self.kvar = np.prod([2 * e ** 2 * (2 * LN2 + 0.25 - 1) for e in (ell, ell2)]) * nc ** 2
            self.density = np.full(5, nc)
            self.domain = None if normalized else (lo, lo + 2 * d)
        else:
            dim = 1 if kern == "eg1" else 2
            pts = [[-1], [0], [1]] if dim == 1 else [[0, 0], [1, 0], [0, -1], [1, -1]]
            d = 2 * ell * np.sqrt(LN2)
            mu = off + 0.5 * np.arange(dim)
            self.points = mu + d * np.array(pts, dtype=float)
            if dim == 1 and h % 2:
                self.measure = GaussianMeasure(mean=float(mu[0]), cov=ell ** 2)
            else:
                self.measure = GaussianMeasure(mean=mu, cov=ell ** 2 * np.eye(dim))
            self.kernel = ExpQuad(input_shape=(dim,), lengthscales=ell)
            self.unit = 2.0 ** (-dim / 2.0)
            self.kvar = 3.0 ** (-dim / 2.0)
            r2 = ((self.points - mu) ** 2).sum(axis=1) / ell ** 2
            self.density = np.exp(-0.5 * r2) / (2 * np.pi * ell ** 2) ** (dim / 2.0)
            self.domain = None
        self.dim = self.points.shape[1]


def num(a):
    """The value of a rational matrix of the specification."""
    return np.array(a["m"], dtype=float) / a["d"]


class Belief:
    def __init__(self, prob, b, n, mode):
        self.mu, self.C = num(b["mu"])[:, 0], num(b["C"])
        self.emb = num(b["cI"])[:, 0] * prob.unit
        self.scale = num(b["q"])[0, 0] / n if (mode == "mle" and n > 0) else 1.0
        self.mean = num(b["mI"])[0, 0] * prob.unit
        self.var0 = prob.kvar - num(b["red"])[0, 0] * prob.unit ** 2
        self.var = self.scale * self.var0
        self.pvar = np.diag(self.C) * self.scale


def close(a, b, scale=1.0, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (abs(scale) + np.abs(b))))
