"""Recovers the exact Gaussian law of a sampling routine: a source of "randomness" that hands out
chosen standard normal numbers.  A routine that is affine in them has mean f(0) and covariance J J^T."""


def law(draw, max_n=4000):
    """draw(rng) -> array.  Returns (shape, mean, J) with J of shape (outputs, number of normals drawn)."""
    import numpy as np

    class Probe(np.random.RandomState):
        def __init__(self, z):
            super().__init__(0)
            self.z, self.used = z, 0

        def _take(self, size):
            shape = () if size is None else (tuple(size) if np.iterable(size) else (int(size),))
            n = int(np.prod(shape, dtype=int))
            out = np.zeros(n)
            for i in range(n):
                if self.used + i < len(self.z):
                    out[i] = self.z[self.used + i]
            self.used += n
            return out.reshape(shape) if shape else float(out[0])

        def standard_normal(self, size=None):
            return self._take(size)

        def normal(self, loc=0.0, scale=1.0, size=None):
            if size is None:
                size = np.broadcast(loc, scale).shape or None
            return loc + scale * self._take(size)

        def randn(self, *shape):
            return self._take(shape or None)

        def multivariate_normal(self, mean, cov, size=None, **kwargs):
            mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
            shape = () if size is None else (tuple(size) if np.iterable(size) else (int(size),))
            w, v = np.linalg.eigh(cov)
            z = self._take(shape + mean.shape)
            return mean + z @ (v * np.sqrt(np.maximum(w, 0.0))).T

        def _no(self, *a, **k):
            raise NotImplementedError("the probe only provides normal numbers")

        random_sample = uniform = choice = rand = randint = permutation = shuffle = _no

    p = Probe(np.zeros(0))
    base = np.array(draw(p), dtype=float)
    n = p.used
    if n > max_n:
        raise RuntimeError("too many normals drawn")
    J = np.zeros((base.size, n))
    for i in range(n):
        z = np.zeros(n)
        z[i] = 1.0
        J[:, i] = np.array(draw(Probe(z)), dtype=float).reshape(-1) - base.reshape(-1)
    # affine: a combination of unit vectors gives the combination of the responses
    z = np.cos(np.arange(n) * 1.7) * 1.5
    mix = np.array(draw(Probe(z)), dtype=float).reshape(-1)
    ok = bool(np.all(np.abs(mix - base.reshape(-1) - J @ z) <= 1e-6 * (1 + np.max(np.abs(mix), initial=0.0))))
    return base.shape, base.reshape(-1), J, ok
