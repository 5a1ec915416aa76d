"""L01 every way of building and applying a linear operator denotes the matrix algebra
(spec/LinOps.tla over spec/Mat.tla)."""
import zlib

ASSUMPTIONS = ["operators with at least one row and one column", "real leaves (complex only through astype)"]
BUDGET_S = {"quick": 240, "thorough": 2400}


def tlc_runs(tier, seed):
    inv = ["WellFormed", "InvolutionT", "InverseLaw", "EmitInv"]

    def K(nl, nu, prof):
        return dict(MaxLeaves=nl, MaxUn=nu, MaxDim=8, Profile=prof)

    runs = [
        dict(name="one-operand", module="LinOps", constants=K(1, 1, "more"), invariants=inv),
        dict(name="two-operands", module="LinOps", constants=K(2, 0, "core"), invariants=inv),
        dict(name="structured-pairs", module="LinOps", constants=K(4, 0, "pair"), invariants=inv),
    ]
    n = 500 if tier == "quick" else 12000
    for i, (nl, nu) in enumerate(((2, 2), (3, 1), (3, 3), (4, 2))):
        runs.append(dict(name="simulate-%d-%d" % (nl, nu), module="LinOps", constants=K(nl, nu, "more"),
                         invariants=inv, simulate=n, depth=2 * nl + nu + 3, seed=seed + i))
    if tier == "thorough":
        runs.append(dict(name="one-operand-deep", module="LinOps", constants=K(1, 2, "more"), invariants=inv))
        runs.append(dict(name="two-operands-more", module="LinOps", constants=K(2, 0, "more"), invariants=inv))
    return runs


def replay(case, ctx):
    import numpy as np
    from props import _linops as L

    if "refused" in case:
        xs = []
        x, y = L.build(case["x"], xs), L.build(case["y"], xs)
        what = "%s of %s and %s" % (case["refused"], L.describe(case["x"]), L.describe(case["y"]))
        try:
            z = L.binary(case["refused"], x, y)
        except Exception:
            ctx.count("refused")
        else:
            ctx.fail("incompatible-shapes-refused", what + " -> %r" % (z,))
        return
    what = L.describe(case["e"])
    tol = 1e-4 if "astype" in what else 1e-9
    close = lambda a, b: L.close(a, b, tol)
    want = L.frac(case["m"], case["d"])
    leaves = []
    op = L.build(case["e"], leaves, {} if zlib.crc32(what.encode()) % 2 else None)
    leaf_dense = [(l, np.array(L.dense(l))) for l in leaves]
    d = lambda name, got: (lambda: "%s of %s\n got %r\n want %r" % (name, what, got, want))
    r, c = case["r"], case["c"]
    ctx.check(op.shape == (r, c) and op.ndim == 2 and op.size == r * c, "shape",
              lambda: what + " has shape %r, expected %r" % (op.shape, (r, c)))
    if op.shape != (r, c):
        return
    rng = np.random.default_rng(1)
    # application
    xv = np.arange(1.0, c + 1) * np.where(np.arange(c) % 2, -1, 1)
    X = rng.integers(-3, 4, size=(c, 3)).astype(float)
    keep = X.copy()
    ctx.check(close(op @ xv, want @ xv), "matvec", d("op @ vector", None))
    got = op @ X
    ctx.check(close(got, want @ X), "matmat", d("op @ matrix", got))
    ctx.check(np.array_equal(X, keep), "argument-unchanged", d("matmat argument", X))
    Xi = X.astype(np.int64)
    got = op @ Xi
    ctx.check(close(got, want @ Xi), "matmat-int", d("op @ int matrix", got))
    XF = np.asfortranarray(rng.integers(-3, 4, size=(2, c, 2)).astype(float))
    got = op @ XF
    ctx.check(close(got, want @ XF), "matmat-stack", d("op @ stack of matrices", got))
    # 1-column and non-contiguous
    col = xv[:, None]
    got = op @ col
    ctx.check(close(got, want @ col), "matmat-column", d("op @ column", got))
    wide = np.repeat(X, 2, axis=1)[:, ::2]
    got = op @ wide
    ctx.check(close(got, want @ wide), "matmat-strided", d("op @ strided", got))
    # transposed application
    yv = np.arange(1.0, r + 1)
    Y = rng.integers(-3, 4, size=(3, r)).astype(float)
    ctx.check(close(yv @ op, yv @ want), "vecmat", d("vector @ op", None))
    got = Y @ op
    ctx.check(close(got, Y @ want), "rmatmul", d("matrix @ op", got))
    # application along an axis
    for ax, arr in ((0, X), (-2, X), (1, np.ascontiguousarray(X.T)), (-1, np.ascontiguousarray(X.T)),
                    (1, np.arange(2.0 * c * 3).reshape(2, c, 3)), (0, np.arange(6.0 * c).reshape(c, 3, 2)),
                    (-3, np.arange(2.0 * c * c).reshape(c, c, 2)), (2, np.arange(6.0 * c).reshape(3, 2, c)),
                    (0, xv), (-1, xv)):
        got = op(arr, axis=ax)
        exp = np.moveaxis(np.tensordot(want, arr, axes=(1, ax)), 0, ax)
        ctx.check(close(got, exp), "apply-axis", d("op(x, axis=%d)" % ax, got))
    # explicit forms
    D0 = op.todense(cache=False)
    ctx.check(close(D0, want), "todense", d("todense(cache=False)", D0))
    T = op.T
    ctx.check(T.shape == (c, r), "transpose-shape", d("T.shape", T.shape))
    ctx.check(close(T @ yv, want.T @ yv), "transpose-matvec", d("T @ vector", T @ yv))
    ctx.check(close(T.todense(cache=False), want.T), "transpose-todense", d("T.todense()", T.todense()))
    D1 = op.todense()
    ctx.check(close(D1, want), "todense-cached", d("todense()", D1))
    ctx.check(close(op.todense(), want), "todense-again", d("todense() again", None))
    got = op @ X
    ctx.check(close(got, want @ X), "matmat-after-todense", d("op @ matrix after todense", got))
    # element type: the result can hold the values
    ctx.check(np.asarray(D1).dtype == op.dtype, "dtype",
              lambda: "%s: dtype %s but todense() has %s" % (what, op.dtype, np.asarray(D1).dtype))
    got = op @ xv
    ctx.check(np.asarray(got).dtype == np.result_type(op.dtype, xv.dtype), "dtype-of-application",
              lambda: "%s: dtype %s but op @ float64 has %s" % (what, op.dtype, got.dtype))
    # operands are values: building an expression changes none of them
    for l, before in leaf_dense:
        ctx.check(close(L.dense(l.T.T), before) and close(l.todense(cache=False), before),
                  "operands-unchanged", d("an operand", None))
    ctx.count("operators")
    ctx.sample = what
