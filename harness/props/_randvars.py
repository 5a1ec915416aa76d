"""Builds random variables described by spec/RandVars.tla."""


def make(l):
    import numpy as np
    from probnum import linops, randvars

    shape = tuple(l["shape"])
    mean = (np.array(l["v"], dtype=float) / l["d"]).reshape(shape)
    cov = np.array(l["cov"]["m"], dtype=float) / l["cov"]["d"]
    rep = l["rep"]
    if shape == ():
        mean, cov = float(mean), float(cov)
    if rep == "const":
        return randvars.Constant(np.asarray(mean) if shape != () else mean)
    if rep == "linop":
        cov = linops.Matrix(cov)
        cov.is_symmetric = True
    elif rep == "kron":
        cov = linops.Kronecker(np.array(l["x"][0], dtype=float), np.array(l["x"][1], dtype=float))
    elif rep == "scaling":
        cov = linops.Scaling(cov[0, 0], shape=cov.shape)
    return randvars.Normal(mean, cov)


def key_of(k):
    import numpy as np

    out = []
    for part in k:
        t = part[0]
        if t == "int":
            out.append(part[1])
        elif t == "slice":
            out.append(slice(part[1], part[2], part[3]))
        elif t == "all":
            out.append(slice(None))
        elif t == "rev":
            out.append(slice(None, None, -1))
        elif t == "array":
            out.append(np.array(part[1]))
        elif t == "mask":
            out.append(np.array(part[1], dtype=bool))
    return out[0] if len(out) == 1 else tuple(out)


def warm(rv):
    """the stuttering step Chol of the specification: ask for the covariance factor"""
    import numpy as np

    if hasattr(rv, "precompute_cov_cholesky") and not rv.cov_cholesky_is_precomputed:
        cov = np.atleast_2d(todense(rv.cov))
        if np.min(np.linalg.eigvalsh(0.5 * (cov + cov.T))) > 1e-3:
            rv.precompute_cov_cholesky()
    return rv


def apply(rv, h, shape, make=make):
    import numpy as np

    op = h["op"]
    num = lambda s: s[0] / s[1] if s[1] != 1 else s[0]
    if op in ("addc", "cadd", "subc", "csub"):
        c = np.array(h["c"], dtype=float).reshape(shape)
        if shape == ():
            c = float(c)
        if op == "addc":
            return rv + c
        if op == "cadd":
            return c + rv
        if op == "subc":
            return rv - c
        return c - rv
    if op == "adds":
        return rv + h["s"]
    if op == "ssub":
        return h["s"] - rv
    if op == "neg":
        return -rv
    if op == "muls":
        return rv * num(h["s"])
    if op == "smul":
        return num(h["s"]) * rv
    if op == "divs":
        return rv / num(h["s"])
    if op in ("lmul", "lmulv", "innerl"):
        return np.array(h["a"], dtype=float) @ rv
    if op in ("rmul", "rmulv"):
        return rv @ np.array(h["b"], dtype=float)
    if op == "innerr":
        return rv @ np.array(h["a"], dtype=float)
    if op == "reshape":
        return rv.reshape(tuple(h["shape"]))
    if op == "T":
        return rv.T
    if op == "transpose":
        return rv.transpose()
    if op == "index":
        return rv[key_of(h["key"])]
    if op == "addrv":
        return rv + make(h["rv"])
    if op == "subrv":
        return rv - make(h["rv"])
    if op == "rvadd":
        return make(h["rv"]) + rv
    if op == "rvsub":
        return make(h["rv"]) - rv
    if op == "chol":
        if hasattr(rv, "precompute_cov_cholesky") and not rv.cov_cholesky_is_precomputed:
            rv.precompute_cov_cholesky()
        return rv
    raise KeyError(op)


def todense(x):
    import numpy as np

    return np.asarray(x.todense() if hasattr(x, "todense") else x)
