"""C24: the methods shared with SciPy reproduce SciPy."""

import itertools
import warnings

import numpy as np

from .. import problems

PID = "C24"
TECHNIQUE = "exhaustive enumeration of problems, options and histories, each executed in lock step on the real solver and on SciPy's solver of the same method, resynchronised after every step"
NOTE = (
    "SciPy's RK23, RK45 and DOP853 are the oracle: after every step SciPy is restarted from nbkode's state and proposed step and "
    "both take one step; rejections, accepted time, state, derivative, next proposal and dense output must agree. Forcing tables "
    "make every pattern of calm and rough cells. run and run_events are compared with solve_ivp. Differences that are part of "
    "nbkode's design are excluded: growth after a rejection, the last step before t_bound. Uncompiled, the three classes compiled too."
)
RULE = "3 methods x problems x dimensions x initial values x start times x rtol x atol x max_step x first_step; all forcing tables of 4-5 cells over 4 amplitudes; x requested times and events; all invalid options"
ASSUMPTIONS = [
    "after a rejection SciPy does not let the next proposal grow, nbkode does: only the part below the accepted size is compared",
    "steps whose error norm is within rounding of 1 may be accepted by one and rejected by the other: the trace ends there",
]

SCIPY = {"RungeKutta23": "RK23", "RungeKutta45": "RK45", "DOP853": "DOP853"}
AMP = (0.0, 0.6, 25.0, -400.0)


def table_rhs(tab):
    amp = [AMP[a] for a in tab]

    def rhs(t, y):
        i = int(np.floor(t / 0.31))
        a = amp[i % len(amp)] if i >= 0 else 0.0
        return a * np.cos(0.5 * t) - 0.5 * y

    return rhs


def cases(tier, mode):
    out = []
    thorough = tier == "thorough"
    for name in SCIPY:
        probs = (
            ("U", 1, "mixed"), ("U", 3, "mixed"), ("pulse", 2, "neg"), ("swing", 2, "mixed"), ("square", 2, "mixed"),
            ("clock", 3, "mixed"), ("big", 2, "big"), ("stiff", 1, "tiny"), ("decay", 4, "ones"), ("zero", 2, "zero"), ("zero", 1, "mixed"), ("swing", 4, "zero"),
        )
        for (p, dim, y0), rt, at, hi, fs, t0 in itertools.product(
            probs, (None, 1e-2, 1e-6, 1e-15), (None, 1e-9, 0.5), (None, 0.25), (None, 0.1, 4.0), (0.0, -3.5, 100.0) if thorough else (0.0, -3.5)
        ):
            kw = {k: v for k, v in (("rtol", rt), ("atol", at), ("max_step", hi), ("first_step", fs)) if v is not None}
            out.append({"kind": "steps", "solver": name, "prob": p, "dim": dim, "y0": y0, "t0": t0, "kw": kw, "n": 40 if thorough else 12})
        for tab in itertools.product(range(4), repeat=5 if thorough else 4):
            for kw in ({}, {"rtol": 1e-6, "atol": 1e-9}):
                out.append({"kind": "steps", "solver": name, "table": list(tab), "dim": 1 + sum(tab) % 2, "y0": "mixed", "t0": 0.0, "kw": kw, "n": 16})
        for p, dim in (("U", 2), ("swing", 2), ("clock", 1), ("decay", 3), ("square", 1)):
            for kw in ({}, {"rtol": 1e-7, "atol": 1e-9}, {"max_step": 0.2, "first_step": 0.1}):
                for grid in range(4):
                    out.append({"kind": "ivp", "solver": name, "prob": p, "dim": dim, "y0": "mixed", "t0": (0.0, -2.5)[grid % 2], "kw": kw, "grid": grid})
                    for ev in range(6):
                        out.append({"kind": "events", "solver": name, "prob": p, "dim": dim, "y0": "mixed", "t0": (0.0, -2.5)[grid % 2], "kw": kw, "grid": grid, "ev": ev})
        for i in range(len(BAD)):
            out.append({"kind": "bad", "solver": name, "bad": i})
    out.sort(key=lambda c: c.get("n", 12))
    return out


BAD = (
    {"max_step": 0.0}, {"max_step": -1.0}, {"max_step": -np.inf}, {"atol": -1e-12}, {"atol": -1.0}, {"rtol": 0.0}, {"rtol": 1e-14}, {"rtol": -1.0},
    {"rtol": 2.3e-14}, {"atol": 0.0}, {"max_step": 1e-12}, {"max_step": 0.0, "atol": -1.0}, {"rtol": 0.0, "atol": -1.0}, {"nope": 1.0},
)


def jit_groups(tier):
    out = []
    for name in SCIPY:
        g = [c for c in cases("quick", "jit") if c["solver"] == name and c.get("prob") == "U"]
        out.append([c for c in g if c["kind"] == "steps"][:: 9 if tier == "quick" else 2] + [c for c in g if c["kind"] == "ivp"][:4])
    return out


def scipy_cls(name):
    from scipy import integrate

    base = getattr(integrate, SCIPY[name])

    class Watched(base):
        """Records the error norms of the step."""

        def _estimate_error_norm(self, K, h, scale):
            n = super()._estimate_error_norm(K, h, scale)
            rnd = (4e-14 * abs(h) + 1e-14 * abs(self.t)) * float(np.max(np.abs(K))) / float(np.min(scale)) if np.min(scale) > 0 else np.inf
            self.norms.append((float(n), rnd))
            return n

    Watched.norms = []
    return Watched


def functions(case, mode):
    if "table" in case:
        raw = table_rhs(case["table"])
        return raw, problems.guard(raw)
    return problems.PROBLEMS[case["prob"]], problems.get(case["prob"], mode)


def make(case, ctx):
    import nbkode

    raw, f = functions(case, ctx.mode)
    y0 = problems.y0_of(case["dim"], case["y0"])
    return raw, y0, nbkode.get_solver(case["solver"])(f, case["t0"], y0, **case["kw"])


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def run_steps(case, ctx):
    W = scipy_cls(case["solver"])
    raw, y0, sol = make(case, ctx)
    kw = dict(case["kw"])
    sp = W(raw, case["t0"], y0, t_bound=1e300, **kw)
    hi = kw.get("max_step", np.inf)
    lab = "%s(%s) " % (case["solver"], case.get("prob", case.get("table")))
    ctx.require(
        abs(float(sol.h) - min(sp.h_abs, hi)) <= 1e-9 * sp.h_abs, "%s first step %r, SciPy takes %r", lab, float(sol.h), sp.h_abs,
    )
    kw.pop("first_step", None)
    end = "all steps"
    for i in range(case["n"]):
        t, y, h = float(sol.t), np.array(sol.y), float(sol.h)
        sp = W(raw, t, y, t_bound=1e300, first_step=h, **kw)
        sp.norms = []
        sp.step()
        if sp.status != "running":
            end = "SciPy refuses"
            break
        if any(abs(n - 1) < 1e-7 + 10 * r or not np.isfinite(n) for n, r in sp.norms):
            end = "undecided"
            break
        ts, ys = sol.step()
        rej = len(sp.norms) - 1
        # the size of a retry carries the rounding of the estimate
        # (a stiff problem amplifies it)
        tol = (1e-6 if case.get("prob") == "stiff" else 1e-10) + 10 * sum(r / n for n, r in sp.norms[:-1]) + 1e-15 * abs(t) / (sp.t - t)
        hs = sp.t - t
        ctx.require(
            abs(float(sol.t) - sp.t) <= tol * hs + 4e-15 * abs(t), "%s step %d from t=%r with h=%r: reaches %r, SciPy %r after %d rejections", lab, i + 1, t, h, float(sol.t), sp.t, rej,
        )
        big = np.max(np.abs(sp.y)) + hs * np.max(np.abs(sp.K))
        # SciPy rounds the step to a difference of times
        ytol = (1e-12 + tol) * big + 1e-15 * abs(t) * np.max(np.abs(sp.K)) + 1e-300
        ctx.require(np.all(np.abs(sol.y - sp.y) <= ytol), "%s step %d from t=%r: y=%s, SciPy %s", lab, i + 1, t, sol.y, sp.y)
        if sp.t == float(sol.t) and np.array_equal(sol.y, sp.y):
            ctx.require(np.all(np.abs(sol.f - sp.f) <= 1e-12 * (1 + np.max(np.abs(sp.K)))), "%s step %d from t=%r: f=%s, SciPy %s", lab, i + 1, t, sol.f, sp.f)
        n, r = sp.norms[-1]
        noise = r / n if n > 0 else (0.0 if r < 1e-9 else 1.0)
        if noise < 1e-2:
            want, got = min(sp.h_abs, hi), float(sol.h)
            if rej:
                want, got = min(want, hs), min(got, hs)
            ctx.require(abs(want - got) <= (tol + 1e-9 + 2 * noise) * want, "%s step %d from t=%r: proposes %r, SciPy %r", lab, i + 1, t, float(sol.h), sp.h_abs)
        dense = sp.dense_output()
        for x in (0.03, 0.25, 0.5, 0.85):
            te = t + x * min(hs, float(sol.t) - t)
            ctx.require(
                np.all(np.abs(np.asarray(sol.interpolate(te)) - dense(te)) <= 1e2 * ytol + 1e-8 * np.max(np.abs(dense(te)))), "%s interpolate(%r) in step [%r, %r]: %s, SciPy %s", lab, te, t, sp.t, sol.interpolate(te), dense(te),
            )
        ctx.state(lab, case["kw"].get("rtol"), sol.t, tuple(sol.y))
        ctx.step(2)
        ctx.outcome("%d rejections" % min(rej, 4))
    ctx.outcome(end)
    ctx.trace()


def grid_of(case):
    t0 = case["t0"]
    return (
        t0 + np.linspace(0.0, 3.0, 13),
        t0 + np.array([0.0, 1e-7, 1e-3, 0.1, 0.1000001, 2.5]),
        t0 + np.array([2.75]),
        t0 + np.linspace(0.01, 2.99, 50),
    )[case["grid"]]


def reference(case, raw, y0, ts, **more):
    """solve_ivp and whether it met a rejection."""
    from scipy import integrate

    W = scipy_cls(case["solver"])
    W.norms = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # the end is far enough for no step that matters to be cut
        out = integrate.solve_ivp(raw, (case["t0"], ts[-1] + 40.0), y0, method=W, t_eval=None, dense_output=True, **case["kw"], **more)
    return out, any(n > 1 - 1e-6 for n, _ in W.norms)


def run_ivp(case, ctx):
    raw, y0, sol = make(case, ctx)
    ts = grid_of(case)
    want, rej = reference(case, raw, y0, ts)
    t, y = sol.run(ts)
    tol = 30 * case["kw"].get("rtol", 1e-3) if rej else 1e-8
    ctx.require(np.array_equal(t, ts), "run returns the times %s instead of %s", t, ts)
    ref = want.sol(ts).T
    ctx.require(close(y, ref, tol), "%s(%s): run gives %s, solve_ivp %s", case["solver"], case["prob"], y, ref)
    ctx.outcome("ivp, rejections" if rej else "ivp, no rejections")
    ctx.state("ivp", case["solver"], case["prob"], case["grid"], str(case["kw"]))
    ctx.step(2)
    ctx.trace()


def event_set(k, t0):
    def e0(t, y):
        return y[0] - 0.37

    def e1(t, y):
        return np.sin(2.9 * (t - t0) + 0.4)

    def e2(t, y):
        return y[-1] + 0.21 + 0.1 * t - 0.1 * t0

    def e3(t, y):
        return t - t0 - 1.7371

    sets = ((e0,), (e1,), (e0, e2), (e1, e3), (e3, e0, e1), (e2, e1))
    evs = sets[k]
    for i, e in enumerate(evs):
        d = (0, 1, -1)[(k + i) % 3]
        if d:
            e.direction = d
    if k >= 3:
        evs[0 if k == 5 else 1 if k == 3 else 0].terminal = True
    return evs


def run_events(case, ctx):
    raw, y0, sol = make(case, ctx)
    ts = grid_of(case)
    evs = event_set(case["ev"], case["t0"])
    want, rej = reference(case, raw, y0, ts, events=list(evs))
    if rej:
        ctx.outcome("events, rejections")
        ctx.step()
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t, y, te, ye = sol.run_events(ts, events=list(evs))
    last = float(sol.t)
    for k in range(len(evs)):
        w = [(a, b) for a, b in zip(want.t_events[k], want.y_events[k]) if a <= last]
        ctx.require(
            len(w) == len(te[k]) and all(abs(a - b[0]) < 1e-7 and close(c, b[1], 1e-6) for a, c, b in zip(te[k], ye[k], w)),
            "%s(%s): event %d at %s %s, solve_ivp %s", case["solver"], case["prob"], k, list(te[k]), ye[k], w,
        )
    stop = want.t[-1] if want.status == 1 else np.inf
    keep = ts[ts <= stop]
    n = len(keep)
    ref = want.sol(keep).T if n else y[:0]
    ctx.require(len(t) >= n and np.array_equal(t[:n], keep) and close(y[:n], ref, 1e-6), "%s(%s): run_events gives %s %s", case["solver"], case["prob"], t, y)
    if n < len(ts):
        ctx.require(len(t) == n + 1 and abs(t[n] - stop) < 1e-7 and close(y[n], want.y[:, -1], 1e-6), "%s(%s): the run ends with %s %s, the event is at %r", case["solver"], case["prob"], t[n:], y[n:], stop)
    else:
        ctx.require(len(t) == n, "%s(%s): times %s", case["solver"], case["prob"], t)
    ctx.outcome("events, %s" % ("stopped" if n < len(ts) else "complete"))
    ctx.state("events", case["solver"], case["prob"], case["grid"], str(case["kw"]), case["ev"])
    ctx.step(2)
    ctx.trace()


def attempt(f):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            return f(), None, [str(w.message) for w in rec]
        except Exception as e:
            return None, e, [str(w.message) for w in rec]


def run_bad(case, ctx):
    """Options are refused, or warned about, as SciPy does."""
    import nbkode
    from scipy import integrate

    kw = BAD[case["bad"]]
    f = lambda t, y: np.cos(3 * t) - 0.4 * y
    y0 = np.array([0.5, -1.0])
    sp, e1, w1 = attempt(lambda: getattr(integrate, SCIPY[case["solver"]])(f, 0.0, y0, t_bound=100.0, **kw))
    nb, e2, w2 = attempt(lambda: nbkode.get_solver(case["solver"])(f, 0.0, y0, **kw))
    if "nope" in kw:
        ctx.require(isinstance(e2, TypeError), "the unknown option %s gives %r", kw, e2)
    else:
        ctx.require(type(e1) is type(e2), "%s: %r, SciPy %r", kw, e2, e1)
        ctx.require(len(w1) == len(w2), "%s: warnings %s, SciPy %s", kw, w2, w1)
    ctx.outcome("refused" if e2 is not None else "accepted")
    if e2 is None:
        ctx.require(abs(float(nb.h) - min(sp.h_abs, sp.max_step)) <= 1e-9 * sp.h_abs, "%s: first step %r, SciPy %r", kw, float(nb.h), sp.h_abs)
        if kw.get("rtol", 1) < 1e-12:
            # the tolerance the warning announces is the one that is used
            other = nbkode.get_solver(case["solver"])(f, 0.0, y0, rtol=float(sp.rtol), **{k: v for k, v in kw.items() if k != "rtol"})
            for _ in range(6):
                a, b = nb.step(), other.step()
                ctx.require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "%s: step to %s, with the announced rtol=%r to %s", kw, a, float(sp.rtol), b)
    ctx.state("bad", case["solver"], case["bad"])
    ctx.step(2)
    ctx.trace()


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"steps": run_steps, "ivp": run_ivp, "events": run_events, "bad": run_bad}[case["kind"]](case, ctx)
