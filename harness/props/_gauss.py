"""Batch Gaussian inference in floating point: the semantics of a ledger of linear facts."""


def mat(x):
    import numpy as np

    return np.array(x["m"], dtype=float) / x["d"]


def known(b):
    return b["m"]["r"] > 0 and b["P"]["r"] > 0


class Chain:
    """Joint Gaussian over a chain of states, conditioned on linear observations in one go."""

    def __init__(self, m0, P0):
        import numpy as np

        self.np = np
        self.d = len(m0)
        self.m = np.array(m0, dtype=float)
        self.P = np.array(P0, dtype=float)
        self.n = 1
        self.H, self.c, self.R, self.y = [], [], [], []

    def step(self, A, s, Q):
        np = self.np
        d, last = self.d, slice((self.n - 1) * self.d, self.n * self.d)
        C = A @ self.P[last, :]
        new = A @ self.P[last, last] @ A.T + Q
        self.m = np.concatenate([self.m, A @ self.m[last] + s])
        self.P = np.block([[self.P, C.T], [C, new]])
        self.n += 1
        return self.n - 1

    def observe(self, idx, H, c, R, y):
        self.H.append((idx, H))
        self.c.append(c)
        self.R.append(R)
        self.y.append(y)

    def posterior(self, upto=None):
        """(mean, cov) of the stacked states given the first `upto` observations"""
        np = self.np
        k = len(self.H) if upto is None else upto
        if k == 0:
            return self.m.copy(), self.P.copy()
        rows = []
        for idx, H in self.H[:k]:
            row = np.zeros((H.shape[0], len(self.m)))
            row[:, idx * self.d:(idx + 1) * self.d] = H
            rows.append(row)
        H = np.vstack(rows)
        c = np.concatenate([np.atleast_1d(x) for x in self.c[:k]])
        y = np.concatenate([np.atleast_1d(x) for x in self.y[:k]])
        R = np.zeros((H.shape[0], H.shape[0]))
        i = 0
        for r in self.R[:k]:
            R[i:i + len(r), i:i + len(r)] = r
            i += len(r)
        S = H @ self.P @ H.T + R
        K = np.linalg.solve(S, H @ self.P).T
        return self.m + K @ (y - H @ self.m - c), self.P - K @ H @ self.P

    def part(self, post, i, j=None):
        j = i if j is None else j
        d = self.d
        return post[0][i * d:(i + 1) * d], post[1][i * d:(i + 1) * d, j * d:(j + 1) * d]


def close(a, b, tol=1e-7):
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.max(np.abs(b), initial=0.0))))
