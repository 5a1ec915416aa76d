"""Shared by G03 and G04: a posterior of the real code together with its reference chain."""
from props import G01

RUNS = ("iwp", "iwp2", "sde")


def thin(emitted):
    """every specification state is checked by TLC; a part of the behaviours is replayed"""
    import json

    return sorted(emitted, key=lambda e: json.dumps(e, sort_keys=True))[::12]


def runs(tier, seed, sim):
    out = []
    inv = ["GridAgrees", "PredictsThrough", "Interpolates", "EmitDense"]
    base = dict(module="DenseOutput", init="QInit", next_="QNext", invariants=inv)
    for fam in RUNS:
        for n, a, num in sim[tier]:
            out.append(dict(base, name="simulate-%s-%d-%d" % (fam, n, a), constants=dict(Family=fam, MaxLoc=n, MaxAsk=a),
                            simulate=num, depth=2 * n + a + 6, seed=seed))
        out.append(dict(base, name="exhaustive-%s-2-1" % fam, constants=dict(Family=fam, MaxLoc=2, MaxAsk=1), filter=thin))
        if tier == "thorough":
            out.append(dict(base, name="exhaustive-%s-2-2" % fam, constants=dict(Family=fam, MaxLoc=2, MaxAsk=2)))
    return out


def reference(case):
    """(chain, {time: index}, [number of observations up to index])"""
    from props._gauss import Chain, mat

    mod = case["mod"]
    ch = Chain(mat(mod["m0"])[:, 0], mat(mod["P0"]))
    idx = {0: 0}
    by_loc = dict(zip(case["locs"], case["meas"]))
    upto = {}
    n_obs = 0
    points = {0: None}
    points.update({c["t"]: c for c in case["chain"]})
    for t in sorted(points):
        if t > 0:
            c = points[t]
            idx[t] = ch.step(mat(c["A"]), mat(c["s"])[:, 0], mat(c["Q"]))
        if t in by_loc:
            m = by_loc[t]
            ch.observe(idx[t], mat(m["H"]), mat(m["c"])[:, 0], mat(m["R"]), mat({"m": m["y"], "d": 1})[:, 0])
            n_obs += 1
        upto[t] = n_obs
    return ch, idx, upto


def solve(case, f, b):
    import numpy as np
    from probnum import filtsmooth, problems
    from props._gauss import mat

    c2 = dict(case, steps=[])
    pr = G01.prior(c2, f, b)
    mm = G01.measmods(case, f, b)
    locs = np.array(case["locs"], dtype=float) * G01.unit(case)
    data = [mat({"m": m["y"], "d": 1})[:, 0] for m in case["meas"]]
    if len({len(x) for x in data}) == 1:
        data = np.array(data)
    prob = problems.TimeSeriesRegressionProblem(observations=data, locations=locs, measurement_models=mm)
    kal = filtsmooth.gaussian.Kalman(pr)
    fpost, _ = kal.filter(prob)
    return pr, fpost, kal.smooth(fpost), locs
