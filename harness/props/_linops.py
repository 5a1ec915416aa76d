"""Builds the operators described by the specification's expression trees (public API only)."""


def frac(m, d):
    import numpy as np

    return np.array(m, dtype=float) / d


def leaf(l):
    import numpy as np
    import scipy.sparse
    from probnum import linops

    c = l["cls"]
    dt = {"f": np.float64, "i": np.int64}[l.get("dt", "f")]
    if c == "Matrix":
        a = np.array(l["a"], dtype=dt)
        if l["sp"]:
            return linops.aslinop(scipy.sparse.csr_matrix(a))
        return linops.aslinop(a)
    if c == "ScalarScaling":
        s = l["s"] / l["d"]
        return linops.Scaling(dt(s), shape=(l["n"], l["n"]))
    if c == "VectorScaling":
        return linops.Scaling((np.array(l["v"], dtype=float) / l["d"]).astype(dt))
    if c == "Identity":
        return linops.Identity(l["n"], dtype=dt)
    if c == "Zero":
        return linops.Zero((l["r"], l["c"]))
    if c == "Selection":
        return linops.Selection(list(l["idx"]), shape=(len(l["idx"]), l["n"]))
    if c == "Embedding":
        return linops.Embedding(take_indices=tuple(l["take"]), put_indices=tuple(l["put"]),
                                shape=(l["r"], l["c"]))
    if c == "Symmetrize":
        return linops.Symmetrize(l["n"])
    if c == "Lambda":
        a = np.array(l["a"], dtype=float)
        if l["how"] == "scipy":
            import scipy.sparse.linalg

            return linops.aslinop(scipy.sparse.linalg.aslinearoperator(a))
        if l["how"] == "matvec":
            mm = linops.LinearOperator.broadcast_matvec(lambda x: a @ x)
        else:
            mm = linops.LinearOperator.broadcast_matmat(lambda x: a @ x)
        return linops.LambdaLinearOperator(a.shape, np.double, matmul=mm)
    raise KeyError(c)


def build(e, leaves, memo=None):
    """memo: equal leaves of one expression are one shared object"""
    import numpy as np
    import probnum
    from probnum import linops

    op = e["op"]
    if op == "leaf":
        key = repr(sorted(e["l"].items()))
        if memo is not None and key in memo:
            return memo[key]
        o = leaf(e["l"])
        if memo is not None:
            memo[key] = o
        leaves.append(o)
        return o
    x = build(e["x"], leaves, memo)
    if "y" in e:
        y = build(e["y"], leaves, memo)
        return binary(op, x, y)
    a = e["arg"]
    if op == "T":
        return x.T
    if op == "neg":
        return -x
    if op in ("smul", "muls", "adds", "sadd", "subs", "ssub"):
        s = a[0] if a[1] == 1 else a[0] / a[1]
        if op == "smul":
            return s * x
        if op == "muls":
            return x * np.float64(s)
        if op == "adds":
            return x + s
        if op == "sadd":
            return s + x
        if op == "subs":
            return x - s
        return s - x
    if op == "inv":
        return x.inv()
    if op == "astype":
        return x.astype(np.float32)
    if op == "idkron":
        return linops.IdentityKronecker(num_blocks=a, B=x)
    if op == "symkron1":
        return linops.SymmetricKronecker(x)
    raise KeyError(op)


def binary(op, x, y):
    import probnum
    from probnum import linops

    if op == "add":
        return x + y
    if op == "addarr":
        return x + y.todense()
    if op == "arradd":
        return x.todense() + y
    if op == "sub":
        return x - y
    if op == "subarr":
        return x - y.todense()
    if op == "arrsub":
        return x.todense() - y
    if op == "mat":
        return x @ y
    if op == "mateager":
        with probnum.config(lazy_matrix_matrix_matmul=False):
            return x @ y
    if op == "kron":
        return linops.Kronecker(x, y)
    if op == "blk":
        return linops.BlockDiagonalMatrix(x, y)
    if op == "symkron2":
        return linops.SymmetricKronecker(x, y)
    raise KeyError(op)


def dense(x):
    import numpy as np

    d = x.todense() if hasattr(x, "todense") else x
    return np.asarray(d)


def close(a, b, tol=1e-9):
    import numpy as np

    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.max(np.abs(b), initial=0.0))))


def describe(e):
    op = e["op"]
    if op == "leaf":
        l = e["l"]
        return l["cls"] + ":" + ",".join("%s" % (l[k],) for k in sorted(l) if k != "cls")
    if "y" in e:
        return "%s(%s ; %s)" % (op, describe(e["x"]), describe(e["y"]))
    return "%s[%s](%s)" % (op, e["arg"], describe(e["x"]))
