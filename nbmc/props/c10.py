"""C10: adaptive steps meet the tolerances and the step-size limits, or fail loudly."""

import itertools

import numpy as np
from scipy.integrate._ivp import common as ivp_common

from .. import configs, lockstep, problems, ref

PID = "C10"
TECHNIQUE = "model checking of the step-size controller: the real code steps in an adversarial environment that enumerates every accept/reject pattern, in lock step with a controller model"
NOTE = (
    "Before each step the model predicts, from the visible state and the proposed size, every attempt (stages, embedded "
    "error, scaled norm, factor, clipping), hence the accepted time, state and next proposal or the RuntimeError. The "
    "environment is a right-hand side given by a table over time cells: all tables are enumerated, so all patterns of "
    "accepted and rejected attempts appear. Crossed with the matrix of options. Steps whose norm is within rounding of 1 "
    "are not predicted, only checked against the limits."
)
RULE = "3 solvers x (all 4^5 (quick) / 4^6 (thorough) environment tables x 3 option sets + 432 option combinations x 6 problems + failing environments)"
ASSUMPTIONS = ["min_step <= max_step, first_step > 0"]

OPT = {
    "plain": {"rtol": 1e-3, "atol": 1e-5, "first_step": 0.2},
    "tight": {"rtol": 1e-3, "atol": 1e-5, "first_step": 0.2, "min_step": 0.02, "max_step": 0.3, "min_factor": 0.5, "max_factor": 1.5},
    "min": {"rtol": 1e-6, "atol": 1e-7, "first_step": 0.25, "min_step": 0.2, "min_factor": 0.1},
}
FAIL = ("nan", "inf", "nan_later", "inf_later", "blow", "jump", "nan_state", "huge_t", "noise", "nan_big_step")


def cases(tier, mode):
    out = []
    length = 5 if tier == "quick" else 6
    for name in ref.ADAPTIVE:
        for tab in itertools.product((0, 1, 2, 3), repeat=length):
            for o in OPT if tier == "thorough" else ("plain", "tight", "min"):
                out.append({"solver": name, "table": list(tab), "opt": o, "t0": 0.0, "dim": 1 + sum(tab) % 2, "n": 8})
        tols = ((1e-2, 1e-3), (1e-6, 1e-8), (1e-3, 1e-12))
        limits = ((1e-15, np.inf), (1e-15, 0.25), (0.02, 0.1), (0.05, np.inf))
        factors = ((0.2, 10.0, 0.9), (0.5, 1.2, 0.9), (0.1, 3.0, 0.5), (0.8, 10.0, 0.99))
        first = (None, 0.1, 1.0)
        probs = (("U", 2, "mixed"), ("pulse", 1, "mixed"), ("clock", 3, "mixed"), ("big", 2, "big"), ("zero", 2, "zero"), ("stiff", 2, "tiny"))
        for (p, dim, y0), (rt, at), (lo, hi), (mi, ma, sf), fs in itertools.product(probs, tols, limits, factors, first):
            kw = {"rtol": rt, "atol": at, "min_step": lo, "max_step": hi, "min_factor": mi, "max_factor": ma, "safety_factor": sf}
            if not np.isfinite(hi):
                del kw["max_step"]
            if fs is not None:
                kw["first_step"] = fs
            out.append({"solver": name, "prob": p, "dim": dim, "y0": y0, "t0": -1.0, "kw": kw, "n": 10 if tier == "quick" else 40})
        for p in ("U", "decay", "swing", "square", "big"):
            for y0 in ("mixed", "neg", "big", "tiny"):
                for t0 in (0.0, 100.0, -7.0):
                    out.append({"solver": name, "prob": p, "dim": 3, "y0": y0, "t0": t0, "kw": {}, "n": 25, "default": 1})
        for f in FAIL:
            for dim in (1, 2):
                for o in OPT:
                    out.append({"solver": name, "fail": f, "opt": o, "dim": dim, "t0": 0.0, "n": 12})
    out.sort(key=lambda c: c["n"])
    return out


def table_rhs(tab):
    """Piecewise constant forcing: cells of width 0.23."""
    amp = [(0.0, 0.4, 30.0, -900.0)[a] for a in tab]

    def rhs(t, y):
        i = int(np.floor(t / 0.23))
        a = amp[i % len(amp)] if i >= 0 else 0.0
        return a * np.cos(0.5 * t) - 0.5 * y

    return rhs


def fail_rhs(kind, dim):
    n = [0]

    def rhs(t, y):
        n[0] += 1
        z = -0.5 * y + 0.1
        if kind == "nan":
            return z * np.nan if n[0] > 3 else z
        if kind == "inf":
            return z + (np.inf if n[0] > 3 else 0.0)
        if kind == "nan_later":
            return z * np.nan if t > 0.9 else z
        if kind == "inf_later":
            return z + (np.inf if t > 0.9 else 0.0)
        if kind == "blow":
            return y * y + 1.0
        if kind == "jump":
            return z + (1e12 if t > 0.7 else 0.0)
        if kind == "nan_state":
            return np.where(y < 0.2, np.nan, 0 * y - 1.0)
        if kind == "noise":
            # never smooth at any scale
            return z + 1e7 * (-1) ** n[0]
        if kind == "nan_big_step":
            return z * np.nan if n[0] in (4, 5, 17, 18, 19) else z
        return z

    return rhs


def law(err, o):
    if err == 0:
        return o["max_factor"]
    return min(o["max_factor"], max(o["min_factor"], o["safety_factor"] / err ** o["exp"]))


def predict(name, rhs, t, y, f, h, o):
    """("ok", t, y, h_used, h_next or None) / ("raise",) / ("unknown",)"""
    for _ in range(400):
        if not t + h > t:
            return ("raise",)
        y1, K = ref.rk_step(name, rhs, t, y, f, h)
        f1 = np.asarray(rhs(t + h, y1), float)
        err, rnd = ref.error_norm(name, K, f1, y, y1, h, o["atol"], o["rtol"])
        if not np.isfinite(err):
            return ("unknown",)
        rnd = 30 * rnd
        if abs(err - 1) < 1e-6 + rnd:
            return ("unknown",)
        a, b = law(max(err - rnd, 0.0), o), law(err + rnd, o)
        fac = law(err, o)
        sure = abs(a - b) <= 1e-9 * b
        raw = h * fac
        nxt = min(max(raw, o["min_step"]), o["max_step"])
        if err < 1:
            return ("ok", t + h, y1, h, nxt if sure else None)
        if not sure:
            return ("unknown",)
        if not raw >= o["min_step"]:
            return ("raise",)
        h = nxt
    return ("unknown",)


DEF = {"atol": 1e-6, "rtol": 1e-3, "min_step": 1e-15, "max_step": np.inf, "min_factor": 0.2, "max_factor": 10.0, "safety_factor": 0.9}


def run(case, ctx):
    import nbkode

    req = ctx.require
    name = case["solver"]
    cls = getattr(nbkode, name)
    pure = True
    if "table" in case:
        rhs = table_rhs(case["table"])
        kw = OPT[case["opt"]]
        y0 = np.array([1.0, -0.5])[: case["dim"]]
    elif "fail" in case:
        rhs = fail_rhs(case["fail"], case["dim"])
        pure = case["fail"] not in ("nan", "inf", "noise", "nan_big_step")
        kw = OPT[case["opt"]]
        y0 = np.array([1.0, 0.7])[: case["dim"]]
    else:
        rhs = problems.PROBLEMS[case["prob"]]
        kw = case["kw"]
        y0 = problems.y0_of(case["dim"], case["y0"])
    o = dict(DEF, **kw)
    o["exp"] = 1.0 / (ref.EST_ORDER[name] + 1)
    t0 = case["t0"] if case.get("fail") != "huge_t" else 1.0e17
    if ctx.jit:
        used = problems.get(case["prob"], "jit")
    else:
        used = problems.guard(rhs, 60000)
    sol = cls(used, t0, y0, **kw)
    h0 = float(sol.h)
    req(np.isfinite(h0) and o["min_step"] <= h0 <= o["max_step"], "initial step %r outside [%r, %r]", h0, o["min_step"], o["max_step"])
    if "first_step" in kw:
        want = min(max(kw["first_step"], o["min_step"]), o["max_step"])
        req(h0 == want, "first_step=%r gives an initial step of %r", kw["first_step"], h0)
    else:
        try:
            want = ivp_common.select_initial_step(
                rhs, t0, y0, rhs(t0, y0), 1, ref.EST_ORDER[name], o["rtol"], o["atol"]
            )
        except TypeError:
            want = h0  # another SciPy
        want = min(max(want, o["min_step"]), o["max_step"])
        req(abs(h0 - want) <= 1e-9 * want, "initial step %r, SciPy's choice is %r", h0, want)
    for k in range(case["n"]):
        t, y, f, h = float(sol.t), np.array(sol.y), np.array(sol.f), float(sol.h)
        req(o["min_step"] <= h <= o["max_step"], "step %d: proposed size %r outside [%r, %r]", k, h, o["min_step"], o["max_step"])
        exp = predict(name, rhs, t, y, f, h, o) if pure else ("unknown",)
        try:
            sol.step()
        except RuntimeError as e:
            ctx.outcome("raised")
            req(exp[0] != "ok", "step %d: raised %s, but an attempt of size %r is acceptable", k, e, exp[3] if len(exp) > 3 else None)
            req(
                float(sol.t) == t and np.array_equal(sol.y, y) and np.array_equal(sol.f, f),
                "step %d raised but moved the solver from %r to %r", k, t, float(sol.t),
            )
            # the last try must have been as small as allowed
            if exp[0] == "unknown" and not pure:
                pass
            h2 = float(sol.h)
            req(np.isnan(h2) or o["min_step"] <= h2 <= o["max_step"], "after the error the proposed size is %r", h2)
            try:
                sol.step()
            except RuntimeError:
                req(float(sol.t) == t and np.array_equal(sol.y, y), "a second failing step moved the solver")
            else:
                if pure:
                    req(predict(name, rhs, t, y, f, h2, o)[0] != "raise", "step %d raised, then succeeded", k)
            ctx.step()
            ctx.trace()
            return
        t1, y1 = float(sol.t), np.array(sol.y)
        used_h = t1 - t
        tol = 4 * np.spacing(abs(t1)) + 1e-15
        req(np.isfinite(t1) and t1 > t, "step %d: time went from %r to %r", k, t, t1)
        req(np.all(np.isfinite(y1)), "step %d: accepted a state %s", k, y1)
        req(
            o["min_step"] - tol <= used_h <= o["max_step"] + tol,
            "step %d has size %r, outside [%r, %r]", k, used_h, o["min_step"], o["max_step"],
        )
        req(exp[0] != "raise", "step %d: no acceptable step exists, but one of size %r was taken", k, used_h)
        if exp[0] == "ok":
            req(abs(t1 - exp[1]) <= tol + 1e-9 * exp[3], "step %d went to t=%r, the controller goes to %r", k, t1, exp[1])
            req(
                np.all(np.abs(y1 - exp[2]) <= 1e-9 * (1 + np.abs(exp[2]) + np.max(np.abs(f)) * exp[3])),
                "step %d: state %s instead of %s", k, y1, exp[2],
            )
            if exp[4] is not None:
                req(abs(float(sol.h) - exp[4]) <= 1e-7 * exp[4], "step %d: next size %r instead of %r", k, float(sol.h), exp[4])
            ctx.outcome("rejected attempts" if exp[3] != h else "accepted at once")
        elif pure:
            ctx.outcome("unpredicted")
            yy, K = ref.rk_step(name, rhs, t, y, f, used_h)
            err, rnd = ref.error_norm(name, K, np.asarray(rhs(t1, yy)), y, yy, used_h, o["atol"], o["rtol"])
            req(err < 1 + 1e-4 + 100 * rnd, "step %d of size %r accepted with an error norm of %r", k, used_h, err)
        ctx.step()
        ctx.state(name, case.get("opt"), round(t1, 12), round(float(sol.h), 12))
    ctx.trace()


def jit_groups(tier):
    out = []
    sub = [c for c in cases("quick", "jit") if "prob" in c]
    for name in ref.ADAPTIVE:
        mine = [c for c in sub if c["solver"] == name]
        if tier == "quick":
            mine = [c for c in mine if c["prob"] in ("U", "pulse", "zero")]
            out.append(mine)
        else:
            for p in ("U", "pulse", "clock", "big", "zero", "stiff", "decay", "swing", "square"):
                out.append([c for c in mine if c["prob"] == p])
    return [g for g in out if g]
