"""G03 dense output of filtering and smoothing posteriors (spec/DenseOutput.tla)."""
ASSUMPTIONS = ["linear Gaussian continuous-time priors", "times at or after the first location"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 90
SIM = {"quick": [(2, 2, 70), (3, 4, 70), (5, 5, 40)], "thorough": [(3, 4, 3000), (5, 5, 2000), (8, 8, 1000)]}


def tlc_runs(tier, seed):
    from props import _dense

    return _dense.runs(tier, seed, SIM)


def replay(case, ctx):
    import numpy as np
    from props import _dense, G01
    from props._gauss import close, known, mat

    ch, idx, upto = _dense.reference(case)
    full = ch.posterior()
    want_s = {t: ch.part(full, idx[t]) for t in idx}
    want_f = {t: ch.part(ch.posterior(upto=upto[t]), idx[t]) for t in idx}
    for n, t in enumerate(case["asked"]):
        for b, w in ((case["df"][n], want_f[t]), (case["ds"][n], want_s[t])):
            if known(b):
                ctx.count("exact-beliefs")
                assert close(mat(b["m"])[:, 0], w[0]) and close(mat(b["P"]), w[1]), "oracle"
    u, tol = G01.unit(case), 10 * G01.tolerance(case)
    combos = [("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"), ("sqrt", "classic")]
    if case["mod"]["name"] == "lin1":
        combos = [("classic", "classic")]
    asked = np.array(case["asked"], dtype=float) * u
    for f, b in combos:
        pr, fpost, spost, locs = _dense.solve(case, f, b)
        label = "%s locations %s asked %s (%s/%s)" % (case["mod"]["name"], case["locs"], case["asked"], f, b)
        for name, post, want in (("filter", fpost, want_f), ("smoother", spost, want_s)):
            def ok(rv, w):
                return close(rv.mean, w[0], tol) and close(rv.cov, w[1], tol)

            def where(t):
                return "grid" if t in case["locs"] else ("extrapolation" if t > case["locs"][-1] else "interpolation")

            for t, x in zip(case["asked"], asked):
                rv = post(x)
                ctx.count(where(t))
                ctx.check(ok(rv, want[t]), "%s-%s" % (name, where(t)),
                          lambda: "%s at %s\n got %r %r\n want %r" % (label, t, rv.mean, rv.cov, want[t]))
            many = post(asked)
            ctx.check(len(many) == len(asked) and all(ok(r, want[t]) for r, t in zip(many, case["asked"])),
                      name + "-array", lambda: "%s: %r" % (label, many))
            # all locations together with the asked times, some twice
            mixed = sorted(list(case["locs"]) + list(case["asked"]))
            many = post(np.array(mixed, dtype=float) * u)
            ctx.check(len(many) == len(mixed) and all(ok(r, want[t]) for r, t in zip(many, mixed)),
                      name + "-mixed-array", lambda: "%s: %s" % (label, [(t, ok(r, want[t])) for r, t in zip(many, mixed)]))
            ctx.check(len(post) == len(locs) and all(ok(post[i], want[t]) for i, t in enumerate(case["locs"])),
                      name + "-states-after-asking", label)
            if len(asked) > 1:
                try:
                    post(asked[::-1].copy())
                except ValueError:
                    ctx.count("refused")
                else:
                    ctx.fail(name + "-unsorted-refused", label)
    ctx.sample = "%s locations %s asked %s" % (case["mod"]["name"], case["locs"], case["asked"])
