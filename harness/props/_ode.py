"""Replays behaviours of spec/OdeLoop.tla into the ODE solvers."""
import dataclasses

import numpy as np

TICK = 0.125
QUARTERS = {-3: 1, -1: 1, 0: 2, 1: 4, 2: 8, 4: 16}
MINSTEP, MAXSTEP = 1.0 * TICK, 32.0 * TICK
UNIT = np.array([TICK ** 2, TICK ** 3])  # units of (y1, y2)


def problem(case, t0):
    from probnum import problems

    f = lambda t, y: np.array([6.0 * (t - t0), y[0]])
    df = lambda t, y: np.array([[0.0, 0.0], [1.0, 0.0]])
    return problems.InitialValueProblem(f=f, df=df, t0=t0, tmax=t0 + case["cfg"]["T"] * TICK,
                                        y0=np.array([0.0, 5.0]) * UNIT)


def snap(x):
    r = np.rint(x / TICK) * TICK
    return r if abs(x - r) < 1e-9 else x


class Log:
    """Counts the attempts of one run; the step rules and perturbations read it."""

    def __init__(self, att):
        self.att, self.n, self.seen = att, 0, []

    def begin(self, t, dt):
        self.n += 1
        self.seen.append((float(t), float(dt)))
        if self.n > len(self.att):
            raise TooManyAttempts("attempt %d at t=%r with step %r is not a step of the specification" % (self.n, t, dt))

    @property
    def cur(self):
        return self.att[self.n - 1]


class TooManyAttempts(Exception):
    pass


def script_rule(log, first):
    """A user-defined step rule that follows the specification's choices."""
    from probnum import diffeq

    class Script(diffeq.stepsize.StepRule):
        def suggest(self, laststep, scaled_error, localconvrate=None):
            new = laststep * QUARTERS[log.cur["k"]] / 4.0
            if not MINSTEP <= new <= MAXSTEP:
                raise RuntimeError("step-size out of bounds")
            return new

        def is_accepted(self, scaled_error):
            return log.cur["k"] > 0

        def errorest_to_norm(self, errorest, reference_state):
            return 2.0 ** (-log.cur["k"])

    return Script(firststep=first * TICK)


def adaptive_rule(log, first, order, scripted_norm=True, atol=0.25, rtol=0.5):
    """The library's rule; only the error norm comes from the specification."""
    from probnum import diffeq

    class Adaptive(diffeq.stepsize.AdaptiveSteps):
        def suggest(self, *args, **kwargs):
            return snap(super().suggest(*args, **kwargs))

        if scripted_norm:
            def errorest_to_norm(self, errorest, reference_state):
                return np.float64(2.0 ** (-log.cur["k"] * (order + 1)))

    return Adaptive(firststep=first * TICK, atol=atol, rtol=rtol, limitchange=(0.25, 4.0), safetyscale=0.5,
                    minstep=MINSTEP * (1 - 1e-9), maxstep=MAXSTEP * (1 + 1e-9))


def own_solver(log, rule, order=2):
    """A solver written against the public base class."""
    from probnum import diffeq, randvars

    class Own(diffeq.ODESolver):
        def initialize(self, ivp):
            return diffeq.ODESolverState(ivp=ivp, rv=randvars.Constant(ivp.y0), t=ivp.t0, error_estimate=None, reference_state=None)

        def attempt_step(self, state, dt):
            log.begin(state.t, dt)
            y, s = state.rv.mean, state.t - state.ivp.t0
            new = np.array([y[0] + 3 * ((s + dt) ** 2 - s ** 2), y[1] + y[0] * dt + (s + dt) ** 3 - s ** 3 - 3 * s * s * dt])
            ref = np.array([3.0, -4.0])
            err = 2.0 ** (-log.cur["k"] * (self.order + 1)) * (0.25 + 0.5 * np.abs(ref)) * np.array([-1.0, 1.0])
            return diffeq.ODESolverState(ivp=state.ivp, rv=randvars.Constant(new), t=state.t + dt, error_estimate=err, reference_state=ref)

        def rvlist_to_odesol(self, times, rvs):
            return diffeq.ODESolution(locations=times, states=rvs)

    return Own(steprule=rule, order=order)


def rk_solver(log, rule, method):
    import scipy.integrate

    from probnum import diffeq

    class RK(diffeq.perturbed.scipy_wrapper.WrappedScipyRungeKutta):
        def attempt_step(self, state, dt):
            log.begin(state.t, dt)
            return super().attempt_step(state, dt)

    return RK(getattr(scipy.integrate, method), steprule=rule)


def perturbed_solver(log, rule, method):
    import scipy.integrate

    from probnum import diffeq

    class P(diffeq.perturbed.step.PerturbedStepSolver):
        def attempt_step(self, state, dt):
            log.begin(state.t, dt)
            return super().attempt_step(state, dt)

    def perturb(rng, step, solver_order, noise_scale, size=()):
        return step * log.cur["c2"] / 2.0

    inner = diffeq.perturbed.scipy_wrapper.WrappedScipyRungeKutta(getattr(scipy.integrate, method), steprule=rule)
    return P(rng=np.random.default_rng(1), solver=inner, noise_scale=1.0, perturb_function=perturb)


def filter_solver(log, rule, ivp, q=1, strategy="EK0", diffusion=None, smoothing=True, init=None):
    from probnum import diffeq, randprocs

    F = diffeq.odefilter

    class OF(F.ODEFilter):
        def attempt_step(self, state, dt):
            log.begin(state.t, dt)
            return super().attempt_step(state, dt)

    prior = randprocs.markov.integrator.IntegratedWienerProcess(
        initarg=ivp.t0, num_derivatives=q, wiener_process_dimension=ivp.dimension, diffuse=True,
        forward_implementation="sqrt", backward_implementation="sqrt")
    return OF(steprule=rule, prior_process=prior, approx_strategy=getattr(F.approx_strategies, strategy)(), with_smoothing=smoothing,
              init_routine=init or F.init_routines.Stack(), diffusion_model=diffusion)


def callbacks(case, calls):
    """Callbacks on ticks divisible by four (user-visible API: DiscreteCallback)."""
    from probnum import diffeq, randvars

    cb = case["cfg"]["cb"]

    def on(state):
        calls.append(float(state.t))
        k = (state.t - state.ivp.t0) / TICK
        return abs(k - 4 * np.rint(k / 4)) < 1e-9

    def jump(state):
        return dataclasses.replace(state, rv=randvars.Constant(state.rv.mean + np.array([2.0, -1.0]) * UNIT))

    def double(state):
        return dataclasses.replace(state, rv=randvars.Constant(2.0 * state.rv.mean))

    D = diffeq.callbacks.DiscreteCallback
    if cb == "none":
        return None
    if cb == "jump":
        return D(condition=on, replace=jump)
    return [D(condition=on, replace=double), D(condition=on, replace=jump)]


def stops_of(case, t0, variant):
    stops = [t0 + TICK * s for s in case["cfg"]["stops"]]
    if not stops and variant % 2:
        return None
    return [stops, np.array(stops), tuple(stops), iter(stops)][variant % 4]


STALE = "rk-stale-derivative"


def stale(case, t0, method):
    """The values of the known finding: every attempt, rejected or not, hands the derivative at its end to the next one.

    Returns the accepted states and the values in the middle of the accepted steps, in the units of the specification."""
    import scipy.integrate
    from scipy.integrate._ivp import rk

    M = getattr(scipy.integrate, method)
    ivp = problem(case, t0)
    y, t, cb = np.array(ivp.y0), float(t0), case["cfg"]["cb"]
    f = ivp.f(t, y)
    K = np.empty((M.n_stages + 1, len(y)))
    states, mids = [y / UNIT], []
    for a in case["att"]:
        h = a["dt"] * TICK * a.get("c2", 2) / 2.0
        ynew, f = rk.rk_step(ivp.f, t, y, f, h, M.A, M.B, M.C, K)
        if a["k"] <= 0:
            continue
        mids.append(np.asarray(rk.RkDenseOutput(t, t + h, y, K.T.dot(M.P))(t + 0.5 * h)) / UNIT)
        y, t = ynew, t + a["dt"] * TICK
        k = (t - t0) / TICK
        if cb != "none" and abs(k - 4 * np.rint(k / 4)) < 1e-9:
            y = (y if cb == "jump" else 2.0 * y) + np.array([2.0, -1.0]) * UNIT
        states.append(y / UNIT)
    return np.array(states), np.array(mids)


def compare(ctx, got, want, old, scale, clause, detail):
    """Equal to the specification, or to the known finding, or a violation."""
    near = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-8 * scale)
    got = np.asarray(got, dtype=float)
    if near(got, np.asarray(want, dtype=float)):
        return
    known = old is not None and near(got, np.asarray(old, dtype=float))
    ctx.fail(clause, detail() + (" (the known stale derivative)" if known else ""), key=STALE if known else None)
