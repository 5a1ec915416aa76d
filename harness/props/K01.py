"""K01 covariance functions, functions and Gaussian processes are pointwise (spec/CovFuncs.tla)."""
from ._thin import thin

ASSUMPTIONS = ["length scales at which the kernels are polynomials in ln 2 times powers of two; other smoothness and sizes by an integral representation"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 120
INV = ["Denotes", "Symmetric", "Unit", "Emit"]


def tlc_runs(tier, seed):
    q = tier == "quick"
    sh = "{\"s\", \"1\", \"2\", \"22\"}"
    base = dict(module="CovFuncs", init="Init", next_="Next", invariants=INV, timeout=1800)
    return [dict(name="covariance-pairs", filter=thin(2500 if q else 100000), **base, constants=dict(Shapes=sh, MaxOps=4, Mode="cov")),
            dict(name="covariance-trees", simulate=400 if q else 10000, depth=14, seed=seed, **base, constants=dict(Shapes=sh, MaxOps=9, Mode="cov")),
            dict(name="function-pairs", filter=thin(1500 if q else 100000), **base, constants=dict(Shapes=sh, MaxOps=4, Mode="fn")),
            dict(name="function-trees", simulate=1000 if q else 20000, depth=14, seed=seed, **base, constants=dict(Shapes=sh, MaxOps=9, Mode="fn"))]


def extra_cases(tier, seed):
    cases = [dict(keops=k, dim=d) for k in ("eq", "mat0", "mat1", "mat2") for d in (0, 2)]
    cases += [dict(bessel=nu, dim=d) for nu in (0.3, 0.75, 1.0, 1.1, 2.0, 3.3, 0.5, 1.5, 2.5, 3.5, 4.5) for d in (0, 1, 2)]
    return cases


def _num(x):
    import math
    return sum(c * math.log(2) ** i for i, c in enumerate(x["n"])) / x["d"]


def _tab(t):
    import numpy as np
    return np.array([[_num(x) for x in r] for r in t], dtype=float)


SHAPES = {"s": (), "1": (1,), "2": (2,), "22": (2, 2)}


def _scale(sc, shape, f):
    """Length scales for which the scaled difference is f * sc * difference."""
    import numpy as np
    v = 1.0 / (f * np.array(sc, dtype=float))
    return float(v[0]) if len(sc) == 1 else v.reshape(shape)


def _leaf(l, shape, out):
    import math

    import numpy as np
    from probnum.randprocs import covfuncs as c

    L = math.log(2)
    k = l["k"]
    if k == "eq":
        return c.ExpQuad(shape, lengthscales=_scale(l["sc"], shape, math.sqrt(2 * L)))
    if k == "mat":
        return c.Matern(shape, nu=l["p"] + 0.5, lengthscales=_scale(l["sc"], shape, L / math.sqrt(2 * l["p"] + 1)))
    if k == "rq":
        return c.RatQuad(shape, lengthscale=math.sqrt(l["m"] / (2.0 * l["a"])), alpha=l["a"])
    if k == "wn":
        return c.WhiteNoise(shape, sigma_sq=l["s"][0] / l["s"][1])
    if k == "lin":
        return c.Linear(shape, constant=l["c"][0] / l["c"][1])
    if k == "pol":
        return c.Polynomial(shape, constant=l["c"][0] / l["c"][1], exponent=l["e"])
    if k == "pm":
        ps, sc = np.array(l["ps"]), np.array(l["sc"], dtype=float)
        ls = np.sqrt(2 * ps + 1) / (sc * L)
        if shape == ():
            return c.ProductMatern(shape, lengthscales=float(ls[0]), nus=float(ps[0] + 0.5))
        if len(set(ps)) == 1:
            return c.ProductMatern(shape, lengthscales=ls, nus=float(ps[0] + 0.5))
        return c.ProductMatern(shape, lengthscales=ls, nus=ps + 0.5)

    class User(c.CovarianceFunction):
        def __init__(self):
            super().__init__(input_shape=shape, output_shape_0=(2,), output_shape_1=(2,) if out == "mo" else (3,))

        def _evaluate(self, x0, x1):
            if x1 is None:
                x1 = x0
            ax = tuple(range(-len(shape), 0))
            red = (lambda v: np.sum(v, axis=ax)) if ax else (lambda v: v)
            g = (red(x0 * x1) + 1)[..., None, None]
            s = (red(x0 + 0 * x1) + 2 * red(x1 + 0 * x0))[..., None, None]
            a = np.array([[1], [2]])
            cc = np.arange(1, self.output_shape_1[0] + 1)[None, :]
            if out == "mo":
                return g * np.where(a == cc, 1 + a, 1) if l["v"] == 1 else g * g * np.where(a == cc, 4 - a, -1)
            return g + 3 * a * cc - cc if l["v"] == 1 else s * a - cc * g

    return User()


def _fn_leaf(l, shape, out, h):
    import numpy as np
    from probnum import functions

    oshape = () if out == "so" else (2,)
    if l["k"] == "zero":
        return functions.Zero(shape, oshape)
    ax = tuple(range(-len(shape), 0))
    red = (lambda v: np.sum(v, axis=ax)) if ax else (lambda v: v)

    def f(x):
        first = x[(Ellipsis,) + (0,) * len(shape)] if shape else x
        col = [(a * red(x) - 1) if l["v"] == 1 else (red(x * x) + 3 - 2 * a * first) / 2 for a in ((1,) if out == "so" else (1, 2))]
        return np.asarray(col[0]) if out == "so" else np.stack(col, axis=-1)

    return functions.LambdaFunction(f, shape, oshape)


def _build(e, leaf, h):
    import numpy as np
    op = e["op"]
    if op == "leaf":
        return leaf(e["l"])
    a = _build(e["l"], leaf, h // 3)
    if op == "neg":
        return -a
    if op == "scale":
        q = e["q"][0] / e["q"][1]
        if h % 3 == 1:
            q = np.float64(q)
        elif h % 3 == 2 and q == int(q):
            q = int(q)
        return q * a if e["side"] == "left" else a * q
    b = _build(e["r"], leaf, h // 5)
    return a + b if op == "add" else a - b if op == "sub" else a * b


def _close(got, want, tol=1e-9):
    import numpy as np
    got = np.asarray(got, dtype=float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * (1 + np.max(np.abs(want), initial=0.0))))


def _fn(case, ctx):
    import zlib

    import numpy as np

    cfg = case["cfg"]
    label = "function %r on %s at %r" % (case["e"], cfg["shape"], cfg["pts"])
    h = zlib.crc32(label.encode())
    shape, out = SHAPES[cfg["shape"]], cfg["out"]
    X = np.array(cfg["pts"], dtype=float).reshape((-1,) + shape)
    T = _tab(case["t"])
    T = T[:, 0] if out == "so" else T
    oshape = T.shape[1:]
    f = _build(case["e"], lambda l: _fn_leaf(l, shape, out, h), h)
    n = len(X)
    ctx.check(f.input_shape == shape and f.output_shape == oshape, "function-shapes", lambda: label)
    ctx.check(_close(f(X), T), "function-batch", lambda: "%s: %r, exact %r" % (label, f(X), T))
    ctx.check(_close(f(X[1]), T[1]), "function-single", lambda: "%s: %r" % (label, f(X[1])))
    ctx.check(_close(f(X.reshape((n, 1) + shape)), T.reshape((n, 1) + oshape)), "function-batch", lambda: label)
    ctx.check(_close(f(X.astype(int)), T), "function-integers", lambda: "%s: %r, exact %r" % (label, f(X.astype(int)), T))
    ctx.check(_close(f(X.tolist()), T), "function-list", lambda: label)
    ctx.count("functions")
    ctx.sample = label


def _cov(case, ctx):
    import zlib

    import numpy as np
    from probnum import functions, randprocs

    cfg = case["cfg"]
    label = "covariance %r on %s at %r" % (case["e"], cfg["shape"], cfg["pts"])
    h = zlib.crc32(label.encode())
    shape, out = SHAPES[cfg["shape"]], cfg["out"]
    X = np.array(cfg["pts"], dtype=float).reshape((-1,) + shape)
    n = len(X)
    T = _tab(case["t"])
    k = _build(case["e"], lambda l: _leaf(l, shape, out), h)
    o0 = () if out == "so" else (2,)
    o1 = () if out == "so" else (2,) if out == "mo" else (3,)
    ctx.check(k.input_shape == shape and k.output_shape_0 == o0 and k.output_shape_1 == o1, "shapes", lambda: label)
    # values by point: V[i, j] has shape o0 + o1
    m0, m1 = T.shape[0] // n, T.shape[1] // n
    V = T.reshape(m0, n, m1, n).transpose(1, 3, 0, 2).reshape((n, n) + o0 + o1)
    D = np.stack([V[i, i] for i in range(n)])
    forms = [X, X.astype(int)]
    X0, X1 = forms[h % 2], forms[h // 2 % 2]

    def say(got, want):
        return lambda: "%s (%s, %s): %r, exact %r" % (label, X0.dtype, X1.dtype, got, want)

    def chk(got, want, what):
        ctx.check(_close(got, want), what, say(got, want))

    ex = (slice(None), None)
    chk(k(X0[ex], X1[None]), V, "broadcast")
    chk(k(X0, None), D, "equal-points")
    chk(k(X0, X1), D, "equal-points")
    chk(k(X0[0], X1), V[0], "single-and-batch")
    chk(k(X1, X0[1]), V[:, 1], "single-and-batch")
    chk(k(X0[0], X1[1]), V[0, 1], "single")
    chk(k(X0[1], None), V[1, 1], "single")
    chk(k(X0.reshape((1, n) + shape), None), D[None], "equal-points")
    chk(k(X0[ex].tolist(), X1.tolist()), V, "lists")
    chk(k.matrix(X0), T, "matrix")
    chk(k.matrix(X0, X1), T, "matrix")
    sub = [n - 1, 0]
    want = V[:, sub].reshape(n, 2, m0, m1).transpose(2, 0, 3, 1).reshape(m0 * n, m1 * 2)
    chk(k.matrix(X0, X1[sub]), want, "matrix-rectangular")
    chk(k.matrix(X0[0], X1), V[:1].reshape(1, n, m0, m1).transpose(2, 0, 3, 1).reshape(m0, m1 * n), "matrix-single")
    if n == 4:
        chk(k.matrix(X0.reshape((2, 2) + shape), X1), T, "matrix-batch")
    for arg, w in (((X0,), T), ((X0, X1), T), ((X0, X1[sub]), want)):
        op = k.linop(*arg)
        ctx.check(op.shape == w.shape, "linop-shape", lambda: label)
        chk(op.todense(), w, "linop")
        chk(op.T.todense(), w.T, "linop-transposed")
    # refused inputs
    for bad in (np.zeros((3,) + tuple(s + 1 for s in shape)) if shape else None, np.zeros(()) if shape else None):
        if bad is None:
            continue
        for call in (lambda: k(bad, None), lambda: k(X0, bad), lambda: k.matrix(bad), lambda: k.linop(X0, bad)):
            try:
                call()
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, "wrong-input-shape", lambda: "%s: input of shape %r accepted" % (label, bad.shape))
    try:
        k(X0, np.concatenate([X1, X1[:1]]))
        ok = n == 1
    except ValueError:
        ok = True
    ctx.check(ok, "not-broadcastable", lambda: label)
    # Gaussian process
    if out != "cross":
        mean = _fn_leaf({"k": "fn", "v": 2}, shape, out, h)
        M = _tab(case["mean"])
        M = M[:, 0] if out == "so" else M
        gp = randprocs.GaussianProcess(mean, k)
        rv = gp(X0)
        ctx.check(_close(rv.mean, M), "process-mean", lambda: "%s: %r" % (label, rv.mean))
        C = V.reshape(n, n, m0, m1).transpose(0, 2, 1, 3).reshape(n * m0, n * m1)   # order of the flattened mean
        chk(rv.cov, C, "process-covariance")
        var = D if out == "so" else np.diagonal(D, axis1=-2, axis2=-1)
        chk(gp.var(X0), var, "process-variance")
        if np.all(var >= 0):
            chk(gp.std(X0), np.sqrt(var), "process-std")
        chk(gp.mean(X0), M, "process-mean")
        chk(gp.cov.matrix(X0), T, "matrix")
    ctx.count("covariance functions")
    ctx.sample = label


def _reference(nu, r):
    """Matern kernel by the integral representation of the Bessel function."""
    import math

    import numpy as np
    if r == 0:
        return 1.0
    z = math.sqrt(2 * nu) * r
    t = np.linspace(0.0, 20.0, 20001)
    f = np.exp(np.clip(nu * t - z * np.cosh(t), -745, 700)) / 2 + np.exp(np.clip(-nu * t - z * np.cosh(t), -745, 700)) / 2
    K = (np.sum(f) - 0.5 * (f[0] + f[-1])) * (t[1] - t[0])
    return 2 ** (1 - nu) / math.gamma(nu) * z**nu * K


def _numeric(case, ctx):
    import numpy as np
    from probnum.randprocs import covfuncs as c

    rng = np.random.default_rng(3)
    d = case["dim"]
    shape = () if d == 0 else (d,)
    X = rng.uniform(-1, 1, size=(5,) + shape)
    Y = np.concatenate([rng.uniform(-1, 1, size=(3,) + shape), X[:1]])
    diff = X[:, None] - Y[None]
    if "bessel" in case:
        nu = case["bessel"]
        ls = 0.7 if d < 2 else np.array([0.7, 1.9])
        r = np.abs(diff / ls) if d == 0 else np.sqrt(np.sum((diff / ls) ** 2, axis=-1))
        want = np.vectorize(lambda v: _reference(nu, v), otypes=[float])(r)
        k = c.Matern(shape, nu=nu, lengthscales=ls)
        got = k.matrix(X, Y)
        ctx.check(_close(got, want, 1e-6), "matern", lambda: "nu %r, dimension %d: %r, reference %r" % (nu, d, got, want))
        ctx.check(_close(k(X, None), np.ones(5), 1e-6), "matern", lambda: "nu %r at equal points: %r" % (nu, k(X, None)))
        Xi = np.arange(3 * max(d, 1)).reshape((3,) + shape)
        got = k(Xi, None)
        ctx.check(_close(got, np.ones(3), 1e-6) and _close(k.matrix(Xi), k.matrix(Xi.astype(float)), 1e-12), "integers", lambda: "nu %r: %r" % (nu, got))
        ctx.sample = "Matern nu %r dimension %d" % (nu, d)
        return
    ls = 0.7 if d < 2 else np.array([0.7, 1.9])
    mk = lambda p: c.Matern(shape, nu=p + 0.5, lengthscales=ls)
    k = {"eq": lambda: c.ExpQuad(shape, lengthscales=ls), "mat0": lambda: mk(0), "mat1": lambda: mk(1), "mat2": lambda: mk(2)}[case["keops"]]()
    K = k.matrix(X, Y)
    op = k.linop(X, Y)
    v, w = rng.normal(size=4), rng.normal(size=5)
    for what, got, want in (("linop-product", op @ v, K @ v), ("linop-product-transposed", op.T @ w, K.T @ w)):
        ctx.check(_close(got, want, 1e-8), what, lambda: "%s dimension %d: %r, matrix gives %r" % (case["keops"], d, got, want))
    ctx.check(_close(op.todense(), K, 1e-12), "linop", lambda: case["keops"])
    ctx.count("lazy products")
    ctx.sample = "linop %s" % case["keops"]


def replay(case, ctx):
    if "cfg" not in case:
        import time
        for _ in range(4):
            try:
                return _numeric(case, ctx)
            except ImportError:      # KeOps modules are compiled and imported from a folder shared by the processes
                time.sleep(2)
        return _numeric(case, ctx)
    return _cov(case, ctx) if case["cfg"]["mode"] == "cov" else _fn(case, ctx)
