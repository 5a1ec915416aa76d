"""C01 configuration overrides are scoped (spec/Config.tla)."""
ASSUMPTIONS = ["single-threaded use", "override blocks are closed innermost first, as Python's with statement guarantees"]
BUDGET_S = {"quick": 120, "thorough": 1200}


def tlc_runs(tier, seed):
    inv = ["TypeOK", "OutermostRestored", "EmitInv"]
    deep = 3 if tier == "quick" else 4
    runs = [
        dict(name="exhaustive", module="Config", constants=dict(MaxLen=deep, Vals="{0, 1}", EnumReg=True),
             invariants=inv, properties=["RefusedChangesNothing"]),
    ]
    n = 150 if tier == "quick" else 4000
    for depth in (6, 12, 20):
        runs.append(dict(name="simulate-%d" % depth, module="Config",
                         constants=dict(MaxLen=depth, Vals="{0, 1, 2, 3}", EnumReg=True), invariants=inv,
                         simulate=n, depth=depth + 3, seed=seed))
        runs.append(dict(name="simulate-singleton-%d" % depth, module="Config", tag="singleton",
                         constants=dict(MaxLen=depth, Vals="{0, 1, 2, 3}", EnumReg=False), invariants=inv,
                         simulate=n, depth=depth + 3, seed=seed + 1))
    return runs


class _Boom(Exception):
    pass


def replay(case, ctx):
    import probnum

    singleton = isinstance(case, dict) and case.get("tag") == "singleton"
    if singleton:
        case = case["b"]
        cfg = probnum.config
        names = {"k1": "matrix_free", "k2": "covariance_inversion_damping", "k3": "no_such_option"}
        values = {"k1": {0: False, 1: True, 2: False, 3: True}, "k2": {0: 1e-12, 1: 1e-3, 2: 0.5, 3: 7.0},
                  "k3": {0: 0, 1: 1, 2: 2, 3: 3}}
    else:
        cfg = type(probnum.config)()
        names = {"k1": "opt_a", "k2": "opt_b", "k3": "opt_c"}
        values = {k: {0: "v0" + k, 1: None, 2: 2.5, 3: [k]} for k in names}
        cfg.register("opt_a", values["k1"][0], "a")
        cfg.register("opt_b", values["k2"][0], "b")
    before = {n: getattr(probnum.config, n) for n in
              ("matrix_free", "covariance_inversion_damping", "lazy_matrix_matrix_matmul")}
    cms = []
    val = lambda k, v: values[k][v]

    def refused(fn, exc, clause):
        try:
            fn()
        except exc:
            return
        except Exception as e:  # wrong kind of error
            ctx.fail(clause, "raised %r instead of %s" % (e, exc))
            return
        ctx.fail(clause, "was accepted")

    try:
        for i, st in enumerate(case["hist"]):
            op, arg = st["op"], st["arg"]
            if op == "set":
                setattr(cfg, names[arg["k"]], val(arg["k"], arg["v"]))
            elif op == "setbad":
                refused(lambda: setattr(cfg, names[arg["k"]], 1), AttributeError, "set-unregistered-refused")
            elif op == "readbad":
                refused(lambda: getattr(cfg, names[arg["k"]]), AttributeError, "read-unregistered-refused")
            elif op in ("enter", "enterbad"):
                kw = {}
                for k, v in zip(arg["order"], arg["vals"]):
                    kw[names[k]] = val(k, v)
                if op == "enter":
                    cm = cfg(**kw)
                    cm.__enter__()
                    cms.append(cm)
                else:
                    def f():
                        with cfg(**kw):
                            ctx.fail("override-unregistered-refused", "block body entered")
                    refused(f, AttributeError, "override-unregistered-refused")
            elif op == "leave":
                cm = cms.pop()
                if arg["how"] == "return":
                    cm.__exit__(None, None, None)
                else:
                    exc = _Boom() if arg["how"] == "exception" else KeyboardInterrupt()
                    try:
                        sup = cm.__exit__(type(exc), exc, None)
                        ctx.check(not sup, "exception-propagates", "the block swallowed an exception")
                    except BaseException as e:
                        ctx.check(e is exc, "exception-propagates", "raised %r" % (e,))
            elif op == "register":
                cfg.register(names[arg["k"]], val(arg["k"], arg["v"]), "dyn")
            elif op == "registerbad":
                refused(lambda: cfg.register(names[arg["k"]], val(arg["k"], arg["v"]), "x"), KeyError,
                        "register-twice-refused")
            ctx.count("steps")
            for k, v in st["exp"].items():
                got = getattr(cfg, names[k])
                want = val(k, v)
                ctx.check(got is want or got == want, "value-after-" + op,
                          lambda: "step %d %s: option %s is %r, specification says %r" % (i, st, names[k], got, want))
        # leaving what is still open must end in the values of the specification's Unwind
        while cms:
            cms.pop().__exit__(None, None, None)
        ctx.sample = case["hist"][:4]
        if not singleton:
            for n, v in before.items():
                ctx.check(getattr(probnum.config, n) == v, "instances-independent", n)
    finally:
        for n, v in before.items():
            setattr(probnum.config, n, v)
