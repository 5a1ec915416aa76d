"""R02 finite random variables: statistics and samples follow the law, whatever is done to them (spec/FiniteLaw.tla)."""
import itertools

ASSUMPTIONS = ["random variables with finitely many outcomes", "combined random variables are independent"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_LIMIT_S = 60
INV = ["WellFormed", "MassPreserved", "EmitInv"]
REPS = '{"gen", "cat", "scipy"}'


def tlc_runs(tier, seed):
    quick = tier == "quick"

    def K(n, b, reps=REPS):
        return dict(MaxOps=n, Reps=reps, Binary=b)

    runs = [dict(name="leaves", module="FiniteLaw", constants=K(0, True), invariants=INV),
            dict(name="one-op", module="FiniteLaw", constants=K(1, True, '{"gen"}'), invariants=INV),
            dict(name="one-op-all", module="FiniteLaw", constants=K(1, False), invariants=INV),
            dict(name="two-unary", module="FiniteLaw", constants=K(2, False, '{"gen"}'), invariants=INV)]
    for i, (d, b, reps) in enumerate([(2, True, '{"gen"}'), (3, True, '{"gen"}'), (4, True, '{"gen"}'), (3, False, '{"gen"}'),
                                      (5, False, '{"gen"}'), (2, True, REPS), (3, True, REPS)]):
        mixed = reps == REPS
        n = (60 if mixed else 150) if quick else (600 if mixed else 3000)
        runs.append(dict(name="simulate-%d-%s-%s" % (d, "binary" if b else "unary", "mixed" if mixed else "gen"),
                         module="FiniteLaw", constants=K(d, b, reps), invariants=INV, simulate=n, depth=d + 4,
                         seed=seed + i))
    return runs


class Leaf:
    """a random variable with the outcomes of a leaf, in one of the library's representations"""

    def __init__(self, leaf, rep, stride):
        import numpy as np
        from probnum import randvars
        import scipy.stats

        self.shape = tuple(leaf["shape"])
        self.vals = np.array([a["v"] for a in leaf["atoms"]], dtype=np.int64).reshape((len(leaf["atoms"]),) + self.shape)
        self.w = np.array([a["w"] for a in leaf["atoms"]], dtype=float)
        self.p = self.w / self.w.sum()
        self.random = False
        self.stride = stride
        if rep == "cat":
            self.rv = randvars.Categorical(probabilities=self.p, support=self.vals)
        elif rep == "scipy":
            law = merge(self.vals, self.p)
            xs = sorted(law)
            self.rv = randvars.asrandvar(scipy.stats.rv_discrete(values=([x[0] for x in xs], [law[x] for x in xs]))())
        else:
            flat = self.vals.reshape(len(self.vals), -1).astype(float)
            mean = self.p @ flat
            cov = (flat - mean).T @ ((flat - mean) * self.p[:, None])
            law = merge(self.vals, self.p)
            top = max(law, key=law.get)
            shape = self.shape

            def sample(rng, size):
                n = int(np.prod(size)) if size else 1
                if self.random:
                    idx = rng.choice(len(self.p), size=n, p=self.p)
                else:
                    idx = (np.arange(n) // self.stride) % len(self.p)
                out = self.vals[idx].reshape(tuple(size) + shape)
                return out[()] if out.ndim == 0 else out

            def tensor(x, dtype):
                out = np.array(x, dtype=dtype).reshape(shape)
                return out[()] if shape == () else out

            self.rv = randvars.DiscreteRandomVariable(
                shape=shape, dtype=np.dtype(np.int64), sample=sample,
                in_support=lambda x: tuple(np.ravel(x)) in law,
                pmf=lambda x: np.float_(law.get(tuple(np.ravel(x)), 0.0)),
                mode=lambda: tensor(top, np.int64), median=lambda: np.float_(middle(law)),
                mean=lambda: tensor(mean, float),
                cov=lambda: cov.copy() if shape != () else np.float_(cov[0, 0]),
                entropy=lambda: np.float_(-sum(q * np.log(q) for q in law.values())))


def merge(vals, p):
    import numpy as np

    law = {}
    for v, q in zip(vals, p):
        key = tuple(int(x) for x in np.ravel(v))
        law[key] = law.get(key, 0.0) + float(q)
    return law


def middle(law):
    acc = 0.0
    for (v,), q in sorted(law.items()):
        acc += q
        if acc >= 0.5 - 1e-12:
            return float(v)


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "matmul": lambda a, b: a @ b}


def index(rv, key):
    return eval("rv[%s]" % key, {"rv": rv})  # keys are the specification's constants


def describe(hist):
    return [h["op"] + ":" + str(h.get("key", h.get("shape", ""))) if "leaf" not in h else
            "%s:%s%s %s%s" % (h["op"], h.get("f", ""), "-swapped" if h.get("swap") else "", h.get("rep", ""),
                              tuple(h["leaf"]["shape"])) for h in hist]


def replay(case, ctx):
    import numpy as np

    hist, shape = case["hist"], tuple(case["shape"])
    vals = np.array([a["v"] for a in case["atoms"]], dtype=np.int64).reshape((len(case["atoms"]),) + shape)
    w = np.array([a["w"] for a in case["atoms"]], dtype=float)
    p = w / w.sum()
    law = merge(vals, p)
    what = describe(hist)
    leaves, stride = [], 1
    rv = None
    for h in hist:
        op = h["op"]
        if op in ("make", "rv"):
            leaf = Leaf(h["leaf"], h["rep"], stride)
            leaves.append(leaf)
            stride *= len(leaf.p)
        if op == "make":
            rv = leaf.rv
        elif op in ("rv", "const"):
            if op == "rv":
                other = leaf.rv
            else:
                other = np.array(h["leaf"]["atoms"][0]["v"]).reshape(tuple(h["leaf"]["shape"]))
                other = int(other) if other.ndim == 0 else other
            f = OPS[h["f"]]
            rv = f(other, rv) if h["swap"] else f(rv, other)
        elif op == "index":
            rv = index(rv, h["key"])
        elif op == "reshape":
            rv = rv.reshape(tuple(h["shape"]))
        elif op == "T":
            rv = rv.T
        elif op == "transpose":
            rv = rv.transpose()
        elif op == "axes":
            rv = rv.transpose(1, 0)
        else:
            rv = {"neg": lambda x: -x, "pos": lambda x: +x, "abs": abs}[op](rv)
    ctx.check(rv.shape == shape and rv.ndim == len(shape) and rv.size == int(np.prod(shape)), "shape",
              lambda: "%s: %r, want %r" % (what, rv.shape, shape))
    if rv.shape != shape:
        return
    statistics(ctx, rv, law, vals, p, shape, what)
    # samples: one by one where the outcomes of the leaves are prescribed, otherwise (or where the implementation
    # draws in another order) by frequency
    K = len(p)
    rng = np.random.default_rng(7)
    coupled = all(h.get("rep", "gen") == "gen" for h in hist)
    for size in ((), (1,), (3,), (K,), (2, K), (2, 1, 3)):
        got = np.asarray(rv.sample(rng, size=size))
        ctx.check(got.shape == size + shape, "sample-shape", lambda: "%s size %r: %r" % (what, size, got.shape))
        if got.shape != size + shape:
            return
        flat = got.reshape((-1,) + shape)
        if coupled:
            coupled = all(np.array_equal(flat[i], vals[i % K]) for i in range(len(flat)))
        bad = [x for x in flat if tuple(int(v) for v in np.ravel(x)) not in law]
        ctx.check(not bad, "sample-outside-support", lambda: "%s size %r: %r is no outcome of %r" % (what, size, bad[0], law))
        if bad:
            return
    ctx.check(rv.sample(rng, size=4).shape == (4,) + shape, "sample-size-int", str(what))
    if not coupled:
        for leaf in leaves:
            leaf.random = True
        n = 2400
        got = np.asarray(rv.sample(np.random.default_rng(11), size=(n // 2, 2))).reshape((n, -1))
        seen = {}
        for x in got:
            key = tuple(int(v) for v in x)
            seen[key] = seen.get(key, 0) + 1
        for key, q in law.items():
            f = seen.get(key, 0) / n
            ctx.check(abs(f - q) <= 6 * np.sqrt(q * (1 - q) / n) + 2 / n, "sample-frequencies",
                      lambda: "%s: outcome %r has probability %g, frequency %g of %d" % (what, key, q, f, n))
        ctx.count("frequency-tests")
    ctx.count("behaviours")
    ctx.sample = str(what)


def get(rv, name):
    try:
        return getattr(rv, name)
    except NotImplementedError:
        return None


def statistics(ctx, rv, law, vals, p, shape, what):
    """every statistic the random variable offers is that of its law"""
    import numpy as np

    flat = vals.reshape(len(p), -1).astype(float)
    mean = p @ flat
    cov = (flat - mean).T @ ((flat - mean) * p[:, None])
    var = np.diag(cov)

    def close(a, b):
        return np.allclose(np.ravel(a), np.ravel(b), rtol=1e-9, atol=1e-9)

    want = dict(mean=(mean, shape), var=(var, shape), std=(np.sqrt(var), shape),
                cov=(cov, (len(mean), len(mean)) if shape else ()))
    for name, (value, sh) in want.items():
        got = get(rv, name)
        if got is not None:
            ctx.count("statistics")
            ctx.check(np.shape(got) == sh and close(got, value), name,
                      lambda: "%s: %s is %r, want %r" % (what, name, got, value))
    mode = get(rv, "mode")
    if mode is not None:
        key = tuple(int(x) for x in np.ravel(mode))
        ctx.check(np.shape(mode) == shape and law.get(key, 0) >= max(law.values()) - 1e-9, "mode",
                  lambda: "%s: mode %r of %r" % (what, mode, law))
    if shape == ():
        med = get(rv, "median")
        if med is not None:
            lo, hi = (sum(q for (v,), q in law.items() if s * v >= s * med - 1e-9) for s in (-1, 1))
            ctx.check(lo >= 0.5 - 1e-9 and hi >= 0.5 - 1e-9, "median", lambda: "%s: median %r of %r" % (what, med, law))
    ent = get(rv, "entropy")
    if ent is not None:
        ctx.check(close(ent, -sum(q * np.log(q) for q in law.values())), "entropy",
                  lambda: "%s: entropy %r of %r" % (what, ent, law))
    points = [np.array(k).reshape(shape) for k in law]
    # neighbours that are no outcomes, in particular mixtures of the components of outcomes
    comps = [sorted({k[i] for k in law})[:3] for i in range(len(mean))]
    for k in itertools.islice(itertools.product(*comps), 24):
        points.append(np.array(k).reshape(shape))
    points.append(np.full(shape, 1999))
    for x in points:
        x = x.astype(np.int64)
        x = x[()] if shape == () else x
        q = law.get(tuple(int(v) for v in np.ravel(x)), 0.0)
        try:
            got = rv.in_support(x)
            ctx.check(got == (q > 0), "in-support", lambda: "%s: %r in support: %r, law %r" % (what, x, got, law))
        except NotImplementedError:
            pass
        if hasattr(rv, "pmf"):
            ctx.count("probabilities")
            got = rv.pmf(x)
            ctx.check(close(got, q), "pmf", lambda: "%s: pmf(%r) is %r, want %r" % (what, x, got, q))
            if q > 0:
                got = rv.logpmf(x)
                ctx.check(close(got, np.log(q)), "logpmf", lambda: "%s: logpmf(%r) is %r" % (what, x, got))
        if shape == ():
            try:
                got = rv.cdf(x)
            except NotImplementedError:
                continue
            ctx.check(close(got, sum(r for (v,), r in law.items() if v <= x)), "cdf",
                      lambda: "%s: cdf(%r) is %r" % (what, x, got))
