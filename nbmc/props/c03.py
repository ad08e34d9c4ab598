"""C03: multistep solvers start from a correct, equally spaced history."""

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C03"
TECHNIQUE = "exhaustive enumeration of configurations (method x starter x start time x step x bound) on the real constructor against an independent start-up model"
NOTE = (
    "Every multistep method with every starter the package offers (by class, by name, automatic, none). The model "
    "integrates the start-up with the starter alone, through its public API, and compares times, states, "
    "derivative and every recorded starting point. Compiled for a few pairs."
)
RULE = "18 multistep solvers x {auto, none, 26 starters by class and by name} x t0 x h x dimension x {no bound, bounds around the start-up}"
ASSUMPTIONS = ["starters are trusted as solvers here (C01, C09, C10 decide them)"]

BOUNDS = (None, "short", "exact", "between", "first")


def cases(tier, mode):
    out = []
    for name in ref.MULTI:
        starters = ["auto", "none"] + ["class:" + n for n in ref.ALL] + list(ref.ALL)
        # bounds that rounding may or may not reach
        for st in ("auto", "RungeKutta4", "class:Heun3", "AdamsBashforth2"):
            for t0 in (0.1, 0.3, -0.7, 1 / 3, 2.3):
                for h in (0.1, 0.3, 0.07, 1 / 7):
                    for b in ("exact", "sum", "below"):
                        out.append({"solver": name, "starter": st, "t0": t0, "h": h, "dim": 1, "prob": "U", "b": b})
        for st in starters:
            for t0 in (0.0, 1.5, -2.25) if tier == "quick" else (0.0, 1.5, -2.25, 1000.0, -40.0, 0.1):
                for h in (0.125, 0.3) if tier == "quick" else (0.125, 0.3, 0.03, 0.5):
                    for dim in (1, 3) if tier == "quick" else (1, 2, 3, 5):
                        if st in ref.ALL and (dim != 1 or t0 == 0.0):
                            continue
                        out.append({"solver": name, "starter": st, "t0": t0, "h": h, "dim": dim, "prob": "U", "b": None})
            for b in BOUNDS[1:]:
                out.append({"solver": name, "starter": st, "t0": 1.5, "h": 0.125, "dim": 2, "prob": "U", "b": b})
    return out


def run(case, ctx):
    import nbkode

    name, st, t0, h = case["solver"], case["starter"], case["t0"], case["h"]
    cls = getattr(nbkode, name)
    req = ctx.require
    raw = problems.PROBLEMS[case["prob"]]
    f = problems.get(case["prob"], ctx.mode)
    y0 = problems.y0_of(case["dim"])
    k = ref.hist_len(name)
    end = t0 + (k - 1) * h
    total = t0
    for _ in range(k - 1):
        total = total + h
    kw = {"h": h}
    scls = None
    if st == "none":
        kw["first_stepper_cls"] = None
    elif st.startswith("class:"):
        scls = getattr(nbkode, st[6:])
        kw["first_stepper_cls"] = scls
    elif st != "auto":
        scls = getattr(nbkode, st)
        kw["first_stepper_cls"] = st
    else:
        scls = nbkode.RungeKutta45
    starts = 0 if st == "none" else k - 1
    refuse = loose = False
    if case["b"] is not None:
        kw["t_bound"] = {
            "sum": total, "below": np.nextafter(min(total, end), -np.inf), "short": end - 0.5 * h, "exact": end, "between": end + 0.5 * h, "first": t0,
        }[case["b"]]
        refuse = starts > 0 and end > kw["t_bound"]
        # within rounding either answer will do, but the bound must hold
        loose = starts > 0 and (total > kw["t_bound"]) != refuse
    ctx.step()
    ctx.trace()
    try:
        sol = cls(f, t0, y0, **kw)
    except ValueError:
        req(refuse or loose, "%s refused although the start-up ends at %r <= bound %r", name, end, kw.get("t_bound"))
        ctx.outcome("refused")
        return
    req(starts == 0 or float(sol.t) <= kw.get("t_bound", np.inf), "%s starts at %r, beyond the bound %r", name, float(sol.t), kw.get("t_bound"))
    req(not refuse or loose, "%s started although its start-up ends at %r, beyond the bound %r", name, end, kw.get("t_bound"))
    req(
        lockstep.close(sol.t, t0 + starts * h, 1e-13, 1e-14),
        "%s (starter %s) starts at t=%r instead of %r", name, st, float(sol.t), t0 + starts * h,
    )
    states = [np.array(y0)]
    if starts:
        assert scls is not None
        one_step = scls.__name__ in ref.FIXED and ref.start_index(scls.__name__) == 0
        if one_step:
            s = scls(f, t0, y0, h=h)
            for _ in range(starts):
                s.step()
                states.append(np.array(s.y))
        else:
            s = scls(f, t0, y0, h=h) if scls.__name__ in ref.FIXED else scls(f, t0, y0)
            _, ys = s.run(t0 + h * np.arange(1, k))
            states += [np.array(y) for y in ys]
    for j in range(starts + 1):
        tj = t0 + j * h
        got = sol.interpolate(min(max(tj, t0), float(sol.t)))
        req(
            lockstep.close(got, states[j], 1e-9, 1e-10),
            "%s (starter %s): start-up state %d is %s, the starter gives %s", name, st, j, got, states[j],
        )
        ctx.state(name, st, t0, h, case["dim"], j)
    req(lockstep.close(sol.y, states[-1], 1e-9, 1e-10), "%s: y=%s instead of %s", name, sol.y, states[-1])
    fy = raw(float(sol.t), np.array(sol.y))
    req(lockstep.close(sol.f, fy, 1e-9, 1e-10), "%s: f=%s instead of %s", name, sol.f, fy)
    for bad in (t0 - 0.01 * h, float(sol.t) + 0.01 * h):
        try:
            v = sol.interpolate(bad)
        except ValueError:
            continue
        req(False, "%s: interpolate(%r) outside the start-up returned %s", name, bad, v)
    # the first steps after the start-up keep the spacing
    for n in range(1, 4):
        te = t0 + (starts + n) * h
        if "t_bound" in kw and float(sol.t) + h > kw["t_bound"]:
            break
        sol.step()
        ctx.step()
        req(lockstep.close(sol.t, te, 1e-12, 1e-13), "%s: step %d ends at %r, expected %r", name, n, float(sol.t), te)
    ctx.outcome("none" if st == "none" else "started")


def jit_groups(tier):
    pairs = [
        ("AdamsBashforth3", "auto"), ("BDF3", "class:RungeKutta4"), ("AdamsMoulton4", "DOP853"),
        ("AdamsBashforth5", "class:AdamsBashforth2"), ("BDF2", "none"), ("BDF6", "auto"),
        ("AdamsMoulton3", "auto"), ("AdamsBashforth2", "class:Heun3"),
    ]
    if tier == "thorough":
        pairs += [(n, "auto") for n in ref.MULTI if (n, "auto") not in pairs]
        pairs += [("BDF4", "class:" + n) for n in ref.ALL]
    groups = []
    allc = cases("quick", "jit")
    for n, st in pairs:
        groups.append([c for c in allc if c["solver"] == n and c["starter"] == st])
    return groups
