"""G04 joint samples of posteriors and priors have the joint law (spec/DenseOutput.tla)."""
ASSUMPTIONS = ["samplers are affine in the standard normal numbers they draw",
               "prior samples are asked on sorted grids that start at the initial time"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 120
SIM = {"quick": [(2, 2, 40), (3, 3, 30), (4, 4, 12)], "thorough": [(3, 4, 1500), (5, 5, 1000)]}


def tlc_runs(tier, seed):
    from props import _dense

    runs = _dense.runs(tier, seed, SIM)
    if tier == "quick":
        from ._thin import fewer

        for r in runs:
            r["filter"] = fewer(lambda e: e["mod"]["name"] == "lin1", 3, r.get("filter"))
    return runs


def check_law(ctx, clause, draw, shape, size, mean, cov, label, tol=1e-6):
    import numpy as np
    from props._probe import law

    got_shape, m, J, affine = law(draw)
    n = int(np.prod(size, dtype=int))
    if not ctx.check(got_shape == size + shape, clause + "-shape", lambda: "%s: %s, want %s" % (label, got_shape, size + shape)):
        return
    ctx.check(affine, clause + "-affine", label)
    scale = 1.0 + float(np.max(np.abs(cov)))
    want_m = np.tile(mean, n)
    want_C = np.kron(np.eye(n), cov)
    ctx.check(np.all(np.abs(m - want_m) <= tol * (1 + np.max(np.abs(mean)))), clause + "-mean",
              lambda: "%s\n got %r\n want %r" % (label, m, want_m))
    ctx.check(np.all(np.abs(J @ J.T - want_C) <= tol * scale), clause + "-covariance",
              lambda: "%s\n got %r\n want %r" % (label, (J @ J.T).tolist(), want_C.tolist()))


def replay(case, ctx):
    import zlib

    import numpy as np
    from probnum import randprocs
    from props import _dense, G01

    ch, idx, upto = _dense.reference(case)
    full = ch.posterior()
    d = ch.d
    u = G01.unit(case)
    name = case["mod"]["name"]
    lin = name == "lin1"
    tol = 1e-3 if lin else 1e-6
    f, b = [("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"), ("sqrt", "joseph")][zlib.crc32(repr(case["locs"]).encode()) % 4]
    if lin:
        f, b = "classic", "classic"
    pr, fpost, spost, locs = _dense.solve(case, f, b)
    label = "%s locations %s asked %s (%s/%s)" % (name, case["locs"], case["asked"], f, b)

    def joint(moments, times):
        rows = np.concatenate([np.arange(idx[t] * d, (idx[t] + 1) * d) for t in times])
        return moments[0][rows], moments[1][np.ix_(rows, rows)]

    asked = np.array(case["asked"], dtype=float) * u
    m, C = joint(full, case["locs"])
    check_law(ctx, "posterior-locations", lambda r: spost.sample(r), (len(locs), d), (), m, C, label, tol)
    m, C = joint(full, case["asked"])
    pick = zlib.crc32(repr((case["locs"], case["asked"])).encode())
    sizes = [()]
    if not lin:
        sizes.append([(2,), (1,), (2, 2), (1, 2), (2, 1)][pick % (5 if len(asked) <= 2 else 2)])
    for size in sizes:
        check_law(ctx, "posterior-times", lambda r: spost.sample(r, t=asked, size=size), (len(asked), d), size, m, C,
                  label + " size %s" % (size,), tol)
    if not lin:
        got = spost.sample(np.random.default_rng(0), t=asked, size=2)
        ctx.check(got.shape == (2, len(asked), d), "posterior-times-shape", lambda: "%s: %s" % (label, got.shape))
    if len(asked) > 1 and not lin:
        # times in any order, some of them twice: the sample rows belong to the times asked for
        perm = list(case["asked"][::-1]) + [case["asked"][0]]
        x = np.array(perm, dtype=float) * u
        mp, Cp = joint(full, perm)
        from props._probe import law
        try:
            spost.sample(np.random.default_rng(1), t=x)
        except (ValueError, NotImplementedError):
            ctx.count("unsorted-refused")
        else:
            check_law(ctx, "posterior-unsorted-times", lambda r: spost.sample(r, t=x), (len(x), d), (), mp, Cp, label, tol)
    # the prior process itself, on the chain's grid from the initial time
    prior_moments = (ch.m, ch.P)
    grid = sorted({0} | set(case["asked"]))
    g = np.array(grid, dtype=float) * u
    m, C = joint(prior_moments, grid)
    for size in [()] + ([] if lin else [[(2,), (1,), (3, 2), (1, 2)][pick % (4 if len(grid) <= 2 else 2)]]):
        check_law(ctx, "prior", lambda r: pr.sample(r, args=g, size=size), (len(grid), d), size, m, C, label + " size %s" % (size,), tol)
    # states and locations are not disturbed by sampling
    ctx.check(np.array_equal(spost.locations, locs), "sampling-leaves-posterior", label)
    ctx.sample = label
