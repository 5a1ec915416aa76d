"""Q02 the Bayesian quadrature loop: selection, stopping, bookkeeping (spec/BqLoop.tla)."""
from ._thin import thin

ASSUMPTIONS = ["stopping decisions are compared away from exact ties", "random nodes and candidates are supplied by the measure's sampling function"]
BUDGET_S = {"quick": 300, "thorough": 2400}
CASE_LIMIT_S = 20
INV = ["Counts", "OnlyLastStops", "InitialBelief", "LShrinks", "LEmit"]
CRITS = "{\"nev\", \"var\", \"rel\", \"opts\", \"and\", \"and-rel\", \"demorgan\", \"never-early\", \"nev-rel\"}"


def tlc_runs(tier, seed):
    q = tier == "quick"
    base = dict(module="BqLoop", init="LInit", next_="LNext", invariants=INV, timeout=1800)
    const = dict(Kerns="{\"m3\"}", Jits="{0}", MaxData=4, Sizes="{1}", Modes="{\"mle\", \"none\"}", Crits=CRITS)
    return [dict(name="policies", filter=thin(1000 if q else 100000), **base,
                 constants=dict(Policies="{\"vdc\", \"ivr\", \"us\", \"mi\", \"none\"}", MaxEv=7, **const)),
            dict(name="scripted", filter=thin(900 if q else 100000), **base,
                 constants=dict(Policies="{\"script\"}", MaxEv=5 if q else 7, **const))]


def extra_cases(tier, seed):
    return [{"design": k, "n": n, "dim": d, "seed": s} for k in ("latin", "mc") for n in (1, 2, 7) for d in (1, 2, 3)
            for s in range(2 if tier == "quick" else 20)]


CAND = [[1, 4], [2, 5, 7], [3, 6], [1, 2, 3], [4, 5, 6, 7], [1, 7]]


def design_case(case, ctx):
    import numpy as np
    from probnum.quad.integration_measures import LebesgueMeasure
    from probnum.quad.solvers.initial_designs import LatinDesign, MCDesign

    n, d = case["n"], case["dim"]
    lo, hi = -1.0 - np.arange(d), 2.0 + 3.0 * np.arange(d)
    meas = LebesgueMeasure(domain=(lo, hi))
    des = (LatinDesign if case["design"] == "latin" else MCDesign)(n, meas)
    x = des(np.random.default_rng(case["seed"]))
    ctx.check(x.shape == (n, d) and np.all(x >= lo) and np.all(x <= hi), "design-in-domain", lambda: "%r: %r" % (case, x))
    if case["design"] == "latin":
        cells = np.sort(np.floor((x - lo) / (hi - lo) * n).astype(int), axis=0)
        ctx.check(np.array_equal(cells, np.tile(np.arange(n)[:, None], (1, d))), "latin-hypercube", lambda: "%r: %r" % (case, x))
    y = des(np.random.default_rng(case["seed"]))
    ctx.check(np.array_equal(x, y), "design-reproducible", lambda: repr(case))


def replay(case, ctx):
    if "design" in case:
        return design_case(case, ctx)
    import zlib

    import numpy as np
    from probnum.quad import bayesquad
    from probnum.quad.integration_measures import LebesgueMeasure
    from probnum.quad.kernel_embeddings import KernelEmbedding
    from probnum.quad.solvers import BayesianQuadrature, BQState
    from probnum.quad.solvers import BQIterInfo
    from probnum.quad.solvers.acquisition_functions import IntegralVarianceReduction, MutualInformation, WeightedPredictiveVariance
    from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
    from probnum.quad.solvers.initial_designs import InitialDesign
    from probnum.quad.solvers.policies import MaxAcquisitionPolicy, Policy, RandomMaxAcquisitionPolicy, RandomPolicy, VanDerCorputPolicy
    from probnum.quad.solvers.stopping_criteria import ImmediateStop, IntegralVarianceTolerance, MaxNevals, RelativeMeanChange
    from probnum.randprocs.covfuncs import Matern
    from probnum.randvars import Normal
    from ._quad import LN2, Belief, close

    cfg, data, hist = case["cfg"], case["data"], case["hist"]
    label = "%s nodes %r evaluations %r" % ({k: v for k, v in cfg.items() if k not in ("kern", "jit")}, [x["j"] for x in data], [s["n"] for s in hist])
    h = zlib.crc32(label.encode())
    ell = [1.0, 0.5, 4.0][h % 3]
    off = [0.0, -2.5][(h // 3) % 2]
    d = ell * LN2

    class Prob:
        unit = ell
        kvar = 2 * ell ** 2 * (8 * LN2 + 2.0 ** -8 - 1)

    point = lambda j: off + d * j
    index = lambda x: np.rint((np.asarray(x)[:, 0] - off) / d).astype(int)
    values = {x["j"]: float(x["y"]) for x in data}
    evaluated = []

    def fun(x):
        j = index(x)
        ctx.check(np.allclose(x[:, 0], point(j), rtol=0, atol=1e-9), "nodes-on-grid", lambda: "%s: %r" % (label, x))
        evaluated.extend(int(i) for i in j)
        if len(evaluated) > len(order) + 6:
            raise RuntimeError("the loop does not stop: %s" % label)
        return np.array([values.get(int(i), 1e6) for i in j])

    order = [x["j"] for x in data]
    n0 = len(cfg["init"])

    class Script:
        """Hands out the nodes, or the candidates, of the behaviour."""

        def __init__(self):
            self.pos, self.k = n0, 0
            self.asked = []

        def nodes(self, n):
            out = order[self.pos:self.pos + n]
            self.pos += n
            if len(out) < n:
                raise RuntimeError("more nodes were requested than in the behaviour: %s" % label)
            return np.array([[point(j)] for j in out])

        def candidates(self, n):
            if self.k >= len(hist) or not hist[self.k]["cand"]:
                raise RuntimeError("more candidates were requested than in the behaviour: %s" % label)
            s = CAND[hist[self.k]["cand"][0] - 1]
            self.k += 1
            s = s if h % 2 else s[::-1]
            return np.array([[point(j)] for j in s])

    class ScriptedMeasure(LebesgueMeasure):
        script = None

        def sample(self, n_sample, rng):
            if cfg["policy"] == "script":
                return self.script.nodes(n_sample)
            return self.script.candidates(n_sample)

    class ScriptedPolicy(Policy):
        def __init__(self, batch_size, script):
            super().__init__(batch_size=batch_size)
            self.script = script

        @property
        def requires_rng(self):
            return False

        def __call__(self, bq_state, rng):
            return self.script.nodes(self.batch_size)

    class ScriptedDesign(InitialDesign):
        def __init__(self, nodes, measure):
            super().__init__(n_nodes=len(nodes), measure=measure)
            self.nodes = nodes

        @property
        def requires_rng(self):
            return False

        def __call__(self, rng):
            return self.nodes

    def criterion(c):
        if c["op"] == "nev":
            return MaxNevals(c["n"])
        if c["op"] == "var":
            return IntegralVarianceTolerance(Prob.kvar - (c["n"] / c["d"]) * ell ** 2)
        if c["op"] == "rel":
            return RelativeMeanChange(c["n"] / c["d"])
        if c["op"] == "not":
            return ~criterion(c["l"])
        return criterion(c["l"]) & criterion(c["r"]) if c["op"] == "and" else criterion(c["l"]) | criterion(c["r"])

    kernel = Matern(input_shape=(1,), lengthscales=ell, nu=0.5)
    mode = "mle" if cfg["scale"] == "mle" else None
    update = BQStandardBeliefUpdate(jitter=0.0, scale_estimation=mode)
    acq = {"ivr": IntegralVarianceReduction, "us": WeightedPredictiveVariance, "mi": MutualInformation}
    X0 = np.array([[point(j)] for j in cfg["init"]])
    bels = [Belief(Prob, s["b"], s["n"], cfg["scale"]) for s in hist]

    def make(via_problem):
        script = Script()
        measure = ScriptedMeasure(domain=(off, off + 8 * d), input_dim=1)
        measure.script = script
        po = cfg["policy"]
        if via_problem:
            opts = dict(jitter=0.0, scale_estimation=mode, batch_size=cfg["batch"], n_candidates=5)
            c = case["crit"]
            parts = [c["l"]["l"], c["l"]["r"], c["r"]] if cfg["crit"] == "opts" else [c["l"], c["r"]] if c["op"] == "or" else [c]
            for p in parts:
                if p["op"] == "nev":
                    opts["max_evals"] = p["n"]
                elif p["op"] == "var":
                    opts["var_tol"] = Prob.kvar - (p["n"] / p["d"]) * ell ** 2
                else:
                    opts["rel_tol"] = p["n"] / p["d"]
            name = {"vdc": "vdc", "script": "bmc", "none": None}.get(po, po + "_rand")
            return BayesianQuadrature.from_problem(input_dim=1, kernel=kernel, measure=measure, policy=name, options=opts), script, opts, measure
        if po == "none":
            policy, design = None, None
        elif po == "vdc":
            policy, design = VanDerCorputPolicy(cfg["batch"], measure), None
        elif po == "script":
            policy = ScriptedPolicy(cfg["batch"], script) if h % 3 else RandomPolicy(cfg["batch"], measure.sample)
            design = None
        else:
            policy, design = RandomMaxAcquisitionPolicy(1, acq[po](), 5), None
        return BayesianQuadrature(kernel=kernel, measure=measure, policy=policy, belief_update=update,
                                  stopping_criterion=criterion(case["crit"]), initial_design=design), script, None, measure

    def check_end(name, belief, state, info):
        last, bel = hist[-1], bels[-1]
        ctx.check(info.nevals == last["n"] and info.iteration == last["it"] and bool(info.has_converged), "info",
                  lambda: "%s %s: %r, expected %d evaluations in %d iterations" % (name, label, info, last["n"], last["it"]))
        ctx.check(close(belief.mean, bel.mean, ell * 4) and close(belief.cov, bel.var, Prob.kvar * bel.scale), "final-belief",
                  lambda: "%s %s: %r %r, exact %r %r" % (name, label, belief.mean, belief.cov, bel.mean, bel.var))
        if state is not None:
            ctx.check(list(index(state.nodes)) == order if len(order) else state.nodes.shape[0] == 0, "nodes",
                      lambda: "%s %s: %r" % (name, label, index(state.nodes)))
            want = [0.0] * (1 if n0 else 0) + [b.mean for b in bels[:-1]] if n0 else [b.mean for b in bels[:-1]]
            ctx.check(len(state.previous_integral_beliefs) == len(want) and close([p.mean for p in state.previous_integral_beliefs], want, ell * 4),
                      "previous-beliefs", lambda: "%s %s" % (name, label))

    rng = np.random.default_rng(1)
    plain = cfg["crit"] in ("nev", "var", "rel", "opts", "nev-rel")
    for via in ([False, True] if plain else [False]):
        del evaluated[:]
        bq, script, opts, measure = make(via)
        how = ["nodes", "design", "both", "values"][(h // 7) % 4]
        if how in ("design", "both") and (cfg["policy"] == "none" or n0 == 0):
            how = "nodes"
        if how == "both" and n0 < 2:
            how = "design"
        nodes, fe, skip = (X0 if n0 else None), None, 0
        if how == "design":
            bq.initial_design, nodes = ScriptedDesign(X0, measure), None
        elif how == "both":
            bq.initial_design, nodes = ScriptedDesign(X0[1:], measure), X0[:1]
        elif how == "values" and n0:
            fe, skip = np.array([values[j] for j in cfg["init"]]), n0
        name = "%s/%s" % ("from_problem" if via else "constructor", how)
        belief, state, info = bq.integrate(fun=None if (cfg["policy"] == "none" and fe is not None) else fun, nodes=nodes, fun_evals=fe, rng=rng)
        ctx.count("runs")
        check_end(name, belief, state, info)
        ctx.check(evaluated == order[skip:], "each-node-evaluated-once", lambda: "%s %s: evaluated %r" % (name, label, evaluated))
    # the iterator exposes every intermediate belief
    del evaluated[:]
    bq, script, _, measure = make(False)
    if cfg["policy"] == "none":
        bq.stopping_criterion = ImmediateStop()
    state = BQState(measure=measure, kernel=kernel, integral_belief=Normal(0.0, KernelEmbedding(kernel, measure).kernel_variance()))
    if n0:
        _, state = update(bq_state=state, new_nodes=X0, new_fun_evals=np.array([values[j] for j in cfg["init"]]))
    seen = []
    states = []
    for belief, st, info in bq.bq_iterator(state, BQIterInfo.from_bq_state(state), fun, rng):
        seen.append((int(info.nevals), int(info.iteration), bool(info.has_converged)))
        states.append(st)
        if len(seen) <= len(bels):
            b = bels[len(seen) - 1]
            ctx.check(close(belief.mean, b.mean, ell * 4) and close(belief.cov, b.var, Prob.kvar * b.scale), "intermediate-belief",
                      lambda: "%s iteration %d: %r %r, exact %r %r" % (label, len(seen) - 1, belief.mean, belief.cov, b.mean, b.var))
    ctx.check(seen == [(s["n"], s["it"], s["stop"]) for s in hist], "iterations", lambda: "%s: %r" % (label, seen))
    # the public entry point
    if cfg["policy"] == "vdc" and plain and n0 == 0:
        del evaluated[:]
        _, _, opts, measure = make(True)
        belief, info = bayesquad(fun=fun, input_dim=1, kernel=kernel, domain=(off, off + 8 * d), policy="vdc", options=opts)
        check_end("bayesquad", belief, None, info)
        ctx.check(evaluated == order, "each-node-evaluated-once", lambda: "%s bayesquad: evaluated %r" % (label, evaluated))
    # continuous maximisation improves on its starting points
    if cfg["policy"] in acq and (h // 13) % (6 if ctx.tier == "quick" else 1) == 0 and hist[-1]["n"] and len(order) < 6:
        # starting points avoid the nodes
        start = np.array([[point(j + 0.4)] for j in (0, 3, 5)])
        measure.sample = lambda n_sample, rng: start[:n_sample]
        fn = acq[cfg["policy"]]()
        x = MaxAcquisitionPolicy(1, fn, 3)(states[-1], rng)
        ctx.check(x.shape == (1, 1) and off <= x[0, 0] <= off + 8 * d, "maximiser-in-domain", lambda: "%s: %r" % (label, x))
        got, ref = fn(x, states[-1])[0][0], np.max(fn(start, states[-1])[0])
        ctx.check(got >= ref - 1e-9 * (1 + abs(ref)), "maximiser-improves", lambda: "%s: %r < %r" % (label, got, ref))
    ctx.sample = label
