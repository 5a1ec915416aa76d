"""L02 questions about a linear operator have answers that depend only on the matrix it
denotes, not on the order or history of questions (spec/LinOpQuery.tla)."""
import random
import zlib

ASSUMPTIONS = ["only true facts are declared", "solves are compared for well-conditioned operators (cond < 1e6)"]
BUDGET_S = {"quick": 240, "thorough": 2400}


QUERIES = ("trace", "diag", "det", "logabsdet", "rank", "eigvals", "cond1", "cond2", "condinf", "condfro",
           "solvev", "solvem", "solvestack", "invapply", "invdense", "cholL", "cholU", "dense", "densenc",
           "flags", "apply", "symmetrize")


def tlc_runs(tier, seed):
    inv = ["NoContradiction", "FactsOK", "TransposeFacts", "QEmit"]

    def R(name, nl, nu, prof, q, **kw):
        return dict(name=name, module="LinOpQuery", init="QInit", next_="QNext", invariants=inv,
                    constants=dict(MaxLeaves=nl, MaxUn=nu, MaxDim=8, Profile=prof, MaxQ=q), **kw)

    n = 400 if tier == "quick" else 6000
    runs = [R("each-query-once-1op", 1, 0, "more", 1)]
    if tier == "thorough":
        runs.append(R("pairs-of-queries-1op", 1, 0, "more", 2))
        runs.append(R("each-query-once-1un", 1, 1, "more", 1))
    for i, (nl, nu, q) in enumerate(((1, 0, 8), (1, 1, 10), (2, 0, 8), (2, 1, 12), (1, 2, 10), (3, 1, 12))):
        runs.append(R("simulate-%d-%d-%d" % (nl, nu, q), nl, nu, "more", q, simulate=2 * n if nl == 1 else n,
                      depth=2 * nl + nu + q + 5, seed=seed + i))
    return runs


def fdet(m):
    from fractions import Fraction

    a = [[Fraction(x) for x in row] for row in m]
    n, det = len(a), Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            a[i], a[p] = a[p], a[i]
            det = -det
        det *= a[i][i]
        for k in range(i + 1, n):
            f = a[k][i] / a[i][i]
            for j in range(i, n):
                a[k][j] -= f * a[i][j]
    return det


def replay(case, ctx):
    import numpy as np
    from fractions import Fraction
    from props import _linops as L

    e = case["e"]
    what = L.describe(e)
    loose = "astype" in what
    want = L.frac(case["m"], case["d"])
    ex = [[Fraction(x, case["d"]) for x in row] for row in case["m"]]
    op = L.build(e, [])
    path = []
    sq = case["r"] == case["c"]
    tol = 2e-4 if loose else 1e-8
    rng = np.random.default_rng(3)
    LinAlg = np.linalg.LinAlgError

    def close(a, b, t=tol):
        return L.close(a, b, t)

    # after the history of the behaviour, every question is asked once more (in an order of its own)
    final = set()
    for s in case["hist"]:
        if s["q"].startswith("go"):
            final = set()
        elif s["q"] == "declare":
            final.add(s["fact"])
    audit = list(QUERIES)
    random.Random(zlib.crc32(repr(case["hist"]).encode())).shuffle(audit)
    for step in case["hist"] + [{"q": q, "declared": sorted(final)} for q in audit]:
        q = step["q"]
        path.append(q + (":" + step["fact"] if q == "declare" else ""))
        ctx.count("queries")
        det = fdet(ex) if sq else None
        r, c = want.shape
        cond = np.linalg.cond(want) if sq and det != 0 else np.inf
        ok = sq and det != 0 and cond < (1e3 if loose else 1e6)
        say = lambda got, exp=None: (lambda: "%s after %s on %s: got %r expected %r (matrix %r)"
                                     % (q, path[:-1], what, got, exp, want.tolist()))

        def refused(fn):
            try:
                fn()
            except LinAlg:
                ctx.count("refused")
                return
            ctx.fail("nonsquare-refused:" + q, say("accepted")())

        if q == "goT":
            op, want, ex = op.T, want.T.copy(), [list(x) for x in zip(*ex)]
        elif q == "goNeg":
            op, want, ex = -op, -want, [[-x for x in row] for row in ex]
        elif q == "goInv":
            op = op.inv()
            want = np.linalg.inv(want)
            n = len(ex)
            # exact inverse by Gauss-Jordan
            a = [list(row) + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(ex)]
            for i in range(n):
                p = next(k for k in range(i, n) if a[k][i] != 0)
                a[i], a[p] = a[p], a[i]
                a[i] = [x / a[i][i] for x in a[i]]
                for k in range(n):
                    if k != i:
                        f = a[k][i]
                        a[k] = [x - f * y for x, y in zip(a[k], a[i])]
            ex = [row[n:] for row in a]
            want = np.array([[float(x) for x in row] for row in ex])
        elif q == "declare":
            setattr(op, {"sym": "is_symmetric", "low": "is_lower_triangular", "up": "is_upper_triangular",
                         "pd": "is_positive_definite"}[step["fact"]], bool(step["value"]))
        elif q == "trace":
            if sq:
                got = op.trace()
                ctx.check(close(got, float(sum(ex[i][i] for i in range(r)))), "trace", say(got))
            else:
                refused(op.trace)
        elif q == "diag":
            got = op.diagonal()
            ctx.check(close(got, np.diagonal(want)), "diagonal", say(got))
        elif q == "det":
            if sq:
                got = op.det()
                exp = float(det)
                scale = abs(exp) + 1e-3 * (1 + np.max(np.abs(want))) ** min(r, 3)
                ctx.check(abs(got - exp) <= tol * scale * 10, "det", say(got, exp))
            else:
                refused(op.det)
        elif q == "logabsdet":
            if sq:
                got = op.logabsdet()
                if ok:
                    exp = float(np.log(abs(float(det))))
                    ctx.check(abs(got - exp) <= 1e-6 if not loose else abs(got - exp) < 1e-2, "logabsdet", say(got, exp))
                elif det == 0:
                    ctx.check(got < -8 if loose else got < -20, "logabsdet-singular", say(got, "-inf"))
            else:
                refused(op.logabsdet)
        elif q == "rank":
            got = op.rank()
            exp = np.linalg.matrix_rank(want)
            if not loose:
                ctx.check(int(got) == int(exp), "rank", say(got, exp))
        elif q == "eigvals":
            if sq:
                got = np.sort_complex(np.asarray(op.eigvals()).astype(complex))
                t = 1e-3 if loose else 1e-5
                # characteristic polynomial coefficients are well conditioned in the entries
                pg, pw = np.poly(got), np.poly(np.sort_complex(np.linalg.eigvals(want).astype(complex)))
                ctx.check(got.shape == (r,) and close(pg, pw, t), "eigvals", say(got))
            else:
                refused(op.eigvals)
        elif q.startswith("cond"):
            p = {"cond1": 1, "cond2": None, "condinf": np.inf, "condfro": "fro"}[q]
            if sq:
                got = op.cond(p=p)
                if ok:
                    exp = np.linalg.cond(want, p=p)
                    ctx.check(abs(got - exp) <= (1e-2 if loose else 1e-6) * (1 + exp), q, say(got, exp))
                elif det == 0:
                    ctx.check(got > 1e5, q + "-singular", say(got, "infinite"))
            else:
                refused(lambda: op.cond(p=p))
        elif q in ("solvev", "solvem", "solvestack"):
            b = {"solvev": np.arange(1.0, r + 1), "solvem": rng.integers(-3, 4, (r, 2)).astype(float),
                 "solvestack": rng.integers(-3, 4, (2, r, 3)).astype(float)}[q]
            if sq:
                if ok:
                    keep = b.copy()
                    got = op.solve(b)
                    exp = np.linalg.solve(want, b) if b.ndim < 3 else np.stack([np.linalg.solve(want, x) for x in b])
                    ctx.check(close(got, exp, 1e-6 if not loose else 1e-2), q, say(got, exp))
                    ctx.check(np.array_equal(b, keep), "argument-unchanged", say(b, keep))
            else:
                refused(lambda: op.solve(b))
        elif q in ("invapply", "invdense"):
            if sq:
                if ok:
                    exp = np.linalg.inv(want)
                    I = op.inv()
                    x = rng.integers(-3, 4, (r, 2)).astype(float)
                    t = 1e-6 if not loose else 1e-2
                    if q == "invapply":
                        ctx.check(close(I @ x, exp @ x, t), q, say(None))
                        ctx.check(close(I.T @ x, exp.T @ x, t), q + "-T", say(None))
                    else:
                        ctx.check(close(I.todense(cache=False), exp, t), q, say(I.todense(), exp))
                        ctx.check(close(I.det() * float(det), 1.0, t * 10), q + "-det", say(I.det()))
            else:
                refused(op.inv)
        elif q in ("cholL", "cholU"):
            low = q == "cholL"
            if sq:
                issym = np.array_equal(want, want.T) or np.allclose(want, want.T, atol=1e-13, rtol=0)
                mineig = np.min(np.linalg.eigvalsh(want)) if issym else -1
                if issym and mineig > 1e-6 * np.max(np.abs(want)):
                    try:
                        C = op.cholesky(lower=low)
                    except LinAlg:
                        # allowed only while the operator's symmetry is unknown
                        ctx.check("sym" not in step["declared"] and op.is_symmetric is not True,
                                  "cholesky-of-pd", say("refused"))
                    else:
                        Cd = np.asarray(C.todense())
                        ctx.check(close(Cd @ Cd.T if low else Cd.T @ Cd, want), "cholesky-factor", say(Cd))
                        ctx.check(close(np.tril(Cd) if low else np.triu(Cd), Cd), "cholesky-triangular", say(Cd))
                elif mineig < -1e-6:
                    refused(lambda: op.cholesky(lower=low))
            else:
                refused(lambda: op.cholesky(lower=low))
        elif q in ("dense", "densenc"):
            got = op.todense(cache=q == "dense")
            ctx.check(close(got, want), "todense", say(got))
        elif q == "apply":
            x = np.arange(1.0, c + 1)
            ctx.check(close(op @ x, want @ x), "apply", say(op @ x))
        elif q == "symmetrize":
            if sq:
                S = op.symmetrize()
                Sd = np.asarray(S.todense(cache=False))
                ctx.check(S.is_symmetric is True and close(Sd, Sd.T), "symmetrize", say(Sd))
                x = np.arange(1.0, c + 1)
                ctx.check(close(S @ x, Sd @ x), "symmetrize-apply", say(S @ x))
        elif q == "flags":
            issym = sq and all(ex[i][j] == ex[j][i] for i in range(r) for j in range(c))
            low = all(ex[i][j] == 0 for i in range(r) for j in range(c) if j > i)
            up = all(ex[i][j] == 0 for i in range(r) for j in range(c) if j < i)
            pd = issym and all(fdet([row[:k] for row in ex[:k]]) > 0 for k in range(1, r + 1))
            for name, truth in (("is_symmetric", issym), ("is_lower_triangular", low),
                                ("is_upper_triangular", up), ("is_positive_definite", pd)):
                got = getattr(op, name)
                ctx.check(got is None or bool(got) == truth, "flag-" + name, say((name, got), truth))
            ctx.check(op.is_square == sq, "flag-is_square", say(op.is_square))
    ctx.check(op.shape == want.shape, "shape", lambda: what)
    ctx.check(close(op.todense(), want), "denotation-after-history", lambda: "%s after %s" % (what, path))
    ctx.check(close(op @ np.arange(1.0, op.shape[1] + 1), want @ np.arange(1.0, op.shape[1] + 1)),
              "application-after-history", lambda: "%s after %s" % (what, path))
    ctx.sample = [what, path]
