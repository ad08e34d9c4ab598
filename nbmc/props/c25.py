"""C25: solutions converge to the exact solution at the order of the method."""

import warnings

import numpy as np

from .. import configs, ref
from ..engine import Hang

PID = "C25"
TECHNIQUE = "exhaustive enumeration of a bounded grid (solvers x problems with closed-form solutions x start times x refinements x ways of asking) of complete integrations on the real code, judged by the exact solutions"
NOTE = (
    "Every integration is repeated with successively halved steps (or tighter tolerances) and its values - from single steps, "
    "from run at points between the steps, and the times of events - are compared with the closed-form solution: the error must "
    "be small and must fall at the rate of the method down to the accuracy of rounding, root finders and interpolation."
)
RULE = "26 solvers x 8 problems with closed-form solutions x 3 start times x 5 refinements (tolerances 1e-3..1e-9) x {step, run, run_events}"
ASSUMPTIONS = [
    "multistep solvers are started by RungeKutta4, which limits the rate that can be claimed to 5 (by default the start-up is only as accurate as its tolerances: an error bound, no rate)",
    "rates are not claimed where errors cancel (below a thousandth of h^p)",
    "cubic interpolation limits the rate between the steps to 4",
]

BUDGET = 2_000_000


# ------------------------------------------------------- problems and solutions
def f_forced(t, y):
    return -y + np.sin(t)


def e_forced(t, s):
    # through y(s) = 1
    p = lambda x: 0.5 * (np.sin(x) - np.cos(x))
    return np.array([p(t) + (1.0 - p(s)) * np.exp(-(t - s))])


def f_swing(t, y):
    out = np.empty_like(y)
    out[0] = y[1]
    out[1] = -y[0]
    return out


def e_swing(t, s):
    return np.array([np.cos(t - s + 0.3), -np.sin(t - s + 0.3)])


def f_logistic(t, y):
    return y * (1.0 - y)


def e_logistic(t, s):
    return np.array([1.0 / (1.0 + 3.0 * np.exp(-(t - s)))])


def f_modulated(t, y):
    return np.cos(t) * y


def e_modulated(t, s):
    return np.array([1.5 * np.exp(np.sin(t) - np.sin(s)), -0.5 * np.exp(np.sin(t) - np.sin(s))])


def f_orbit(t, y):
    r3 = (y[0] * y[0] + y[1] * y[1]) ** 1.5
    out = np.empty_like(y)
    out[0] = y[2]
    out[1] = y[3]
    out[2] = -y[0] / r3
    out[3] = -y[1] / r3
    return out


def e_orbit(t, s):
    a = t - s + 0.7
    return np.array([np.cos(a), np.sin(a), -np.sin(a), np.cos(a)])


def f_riccati(t, y):
    return -2.0 * t * y * y / (1.0 + t * t)


def e_riccati(t, s):
    # 1/y = 1 + log((1+t^2)/(1+s^2))
    return np.array([1.0 / (3.0 + np.log((1.0 + t * t) / (1.0 + s * s)))])


def f_polar(t, y):
    # attracted by a circle, turning with speed 1
    r2 = y[0] * y[0] + y[1] * y[1]
    out = np.empty_like(y)
    out[0] = y[0] * (1.0 - r2) - y[1]
    out[1] = y[1] * (1.0 - r2) + y[0]
    return out


def e_polar(t, s):
    # r^2 = 1/(1 + 3 exp(-2 tau)), r(0) = 1/2
    tau = t - s
    r = 1.0 / np.sqrt(1.0 + 3.0 * np.exp(-2.0 * tau))
    return np.array([r * np.cos(tau), r * np.sin(tau)])


def f_chain(t, y):
    out = np.empty_like(y)
    out[0] = -y[0]
    out[1] = y[0] - y[1]
    out[2] = y[1] - 2.0 * np.sin(t) * y[0]
    return out


def e_chain(t, s):
    # 2 sin(x) exp(-(x - s)) integrates to -(sin x + cos x) exp(-(x - s))
    tau = t - s
    e = np.exp(-tau)
    return np.array([e, tau * e, 1.0 - (1.0 + tau) * e + (np.sin(t) + np.cos(t)) * e - np.sin(s) - np.cos(s)])


PROBLEMS = ("forced", "swing", "logistic", "modulated", "orbit", "riccati", "polar", "chain")
SPAN = 2.0
STARTS = (0.0, -1.25, 7.5)
HS = tuple(2.0**-k for k in range(3, 8))
TOLS = (1e-3, 1e-5, 1e-7, 1e-9)


def ev_mid(t, y):
    return t - 1e-3 * y[0] * y[0]


def cases(tier, mode):
    out = []
    starts = STARTS if tier == "quick" else STARTS + (100.0, -33.3)
    for name in ref.ALL:
        for prob in PROBLEMS:
            for s in starts:
                for way in ("step", "run", "events"):
                    firsts = (None,) if name not in ref.MULTI or ref.hist_len(name) < 2 else ("RungeKutta4", None)
                    for first in firsts:
                        out.append({"solver": name, "prob": prob, "t0": s, "way": way, "first": first})
    return out


_J = {}


def compiled(f, ctx):
    if ctx.jit:
        if f not in _J:
            import numba

            _J[f] = numba.njit(f)
        return _J[f]
    left = [BUDGET]

    def g(t, y):
        left[0] -= 1
        if left[0] < 0:
            raise Hang()
        return f(t, y)

    return g


def crossing(t, y):
    return y[0] - y[y.size - 1] * 0.5 - 0.2 * np.cos(3.0 * t)


def exact_zeros(exact, s, a, b):
    g = lambda t: float(crossing(t, exact(t, s)))
    ts = np.linspace(a, b, 401)
    v = [g(t) for t in ts]
    out = []
    for i in range(400):
        if v[i] * v[i + 1] < 0:
            lo, hi = ts[i], ts[i + 1]
            for _ in range(60):
                m = 0.5 * (lo + hi)
                if (g(m) < 0) == (v[i] < 0):
                    lo = m
                else:
                    hi = m
            out.append(0.5 * (lo + hi))
    return out


def integrate(case, ctx, rhs, exact, kw):
    """The largest error over everything that is returned."""
    import nbkode

    name, s = case["solver"], case["t0"]
    sol = getattr(nbkode, name)(rhs, s, exact(s, s), **kw)
    begin, end = float(sol.t), s + SPAN
    if case["way"] == "step":
        ts, ys = sol.step(upto_t=end)
        ctx.require(len(ts) > 1, "no steps")
    elif case["way"] == "run":
        want = np.linspace(begin, end, 54)[1:]
        ts, ys = sol.run(want)
        ctx.require(len(ts) == len(want), "%d of %d requested times returned", len(ts), len(want))
    else:
        ev = compiled(crossing, ctx)
        ts, ys, te, ye = sol.run_events([end], [ev])
        ctx.require(len(ts) == 1, "requested time missing")
        want = exact_zeros(exact, s, begin, end)
        te, ye = np.asarray(te[0], float), np.asarray(ye[0], float)
        # a zero may be on either side of an end
        close = [w for w in want if begin + 0.05 < w < end - 0.05]
        for w in close:
            ctx.require(len(te) and np.min(np.abs(te - w)) < 0.15, "the zero at %r is not among the events %s", w, te)
        inner = [(t, y) for t, y in zip(te, ye) if begin + 0.06 < t < end - 0.06]
        ts = list(ts) + [t for t, _ in inner]
        ys = list(ys) + [y for _, y in inner]
        err = 0.0
        for w in close:
            g = abs(float(crossing(w + 1e-6, exact(w + 1e-6, s)) - crossing(w - 1e-6, exact(w - 1e-6, s)))) / 2e-6
            if g > 0.3:
                err = max(err, float(np.min(np.abs(te - w))) * min(g, 1.0))
        return max(err, max(float(np.max(np.abs(np.asarray(y) - exact(t, s)))) for t, y in zip(ts, ys)))
    return max(float(np.max(np.abs(np.asarray(y) - exact(float(t), s)))) for t, y in zip(ts, ys))


def run(case, ctx):
    name = case["solver"]
    g = globals()
    rhs, exact = compiled(g["f_" + case["prob"]], ctx), g["e_" + case["prob"]]
    errs = []
    if name in ref.ADAPTIVE:
        for tol in TOLS:
            errs.append(integrate(case, ctx, rhs, exact, {"rtol": tol, "atol": tol, **({} if case["way"] == "run" else {"max_step": 0.25})}))
            ctx.step()
        bad = [(t, e) for t, e in zip(TOLS, errs) if not e <= FACTOR * t + 1e-12]
        ctx.require(not bad, "%s on %s from %r (%s): error %r with tolerance %r", name, case["prob"], case["t0"], case["way"], bad and bad[0][1], bad and bad[0][0])
        ctx.state(name, case["prob"], case["t0"], case["way"], repr(errs))
        ctx.trace(len(TOLS))
        return errs
    p = ref.ORDER[name]
    floor = 1e-12
    if case["way"] != "step":
        p = min(p, 4)
    if case["first"] == "RungeKutta4":
        p = min(p, 5)
    if name in ref.IMPLICIT:
        floor = 1e-6
    if name in ref.MULTI and ref.hist_len(name) > 1 and case["first"] != "RungeKutta4":
        floor = START_FLOOR
    hs = HS if case["prob"] != "orbit" else tuple(h / 2 for h in HS)
    for h in hs:
        kw = {"h": h}
        if case["first"]:
            kw["first_stepper_cls"] = case["first"]
        errs.append(integrate(case, ctx, rhs, exact, kw))
        ctx.step()
    what = "%s on %s from %r (%s, start %s)" % (name, case["prob"], case["t0"], case["way"], case["first"])
    for h, e in zip(hs, errs):
        ctx.require(e <= floor + CONST * h**p, "%s: error %r with h=%r", what, e, h)
    for i in range(3, len(hs)):
        # the rate over two halvings
        if errs[i] > max(10 * floor, 1e-3 * hs[i] ** p):
            rate = 0.5 * np.log2(errs[i - 2] / errs[i])
            ctx.require(rate >= p - SLACK, "%s: rate %.2f instead of %d, errors %s", what, rate, p, errs)
            ctx.outcome("rate")
    ctx.state(name, case["prob"], case["t0"], case["way"], repr(errs))
    ctx.trace(len(HS))
    return errs


FACTOR = 150.0
CONST = 60.0
SLACK = 0.6
START_FLOOR = 1e-2


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_C
    sub = [c for c in cases("quick", "jit") if c["t0"] == 7.5 and c["prob"] in ("forced", "orbit")]
    return configs.per_solver(sub, names)
