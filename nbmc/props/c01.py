"""C01: every step follows the published formula of the named method."""

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C01"
TECHNIQUE = "explicit-state exploration of the real step function, every transition checked against exact-rational reference formulas"
NOTE = (
    "Every step of every listed configuration is recomputed from the published formula (fractions; "
    "multistep coefficients solved from their defining conditions; embedded pairs from SciPy) applied to "
    "the states the solver itself showed. Explicit formulas agree to 1e-11 relative, implicit ones have "
    "residual within the root finder's tolerance. Uncompiled for all, compiled for 26 solvers on one system."
)
RULE = "26 solvers x right-hand sides x start times x step sizes x dimensions x initial states, N steps each"
ASSUMPTIONS = ["starting history read through interpolate() at the start-up times"]

PROBS = ("U", "clock", "square", "swing", "decay", "zero", "big", "stiff")


def cases(tier, mode):
    out = []
    hs = (0.25, 0.3, 0.015625) if tier == "quick" else (0.25, 0.3, 0.015625, 0.7, 0.1, 1e-4)
    for name in ref.ALL:
        for prob in PROBS:
            for dim in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6):
                if prob == "swing" and dim % 2:
                    continue
                for t0 in (0.0, 1.5, -2.25) if tier == "quick" else (0.0, 1.5, -2.25, 1000.0, -7.3):
                    for h in hs:
                        if prob == "stiff" and h > 0.02 and name not in ref.IMPLICIT:
                            continue
                        c = {"solver": name, "prob": prob, "dim": dim, "t0": t0, "h": h, "n": 14}
                        if prob == "big":
                            c["y0"] = "big"
                        if prob in ("square", "decay") and dim == 2:
                            c["y0"] = "neg"
                        if prob == "zero" and dim == 2:
                            c["y0"] = "tiny"
                        if prob == "square":
                            c["n"] = 8
                        if prob == "square" and h > 0.3:
                            continue
                        out.append(c)
        # long runs: nothing may change with the number of steps taken
        for dim in (1, 2):
            out.append({"solver": name, "prob": "U", "dim": dim, "t0": 0.0, "h": 0.0625, "n": 320})
        # many equations
        for prob, dim in (("U", 17), ("decay", 24), ("clock", 40), ("swing", 12)):
            out.append({"solver": name, "prob": prob, "dim": dim, "t0": 0.5, "h": 0.25, "n": 12})
        out.append({"solver": name, "prob": "clock", "dim": 5, "t0": -1.0, "h": 0.25, "n": 60})
    return out


def adaptive_kw(case):
    return {"first_step": case["h"], "atol": 1e-5, "rtol": 1e-4}


def run(case, ctx):
    name = case["solver"]
    f = problems.PROBLEMS[case["prob"]]
    c = dict(case)
    if name in ref.ADAPTIVE:
        c["kw"] = adaptive_kw(case)
    sol = lockstep.build(c, ctx.mode)
    req = ctx.require
    k = ref.hist_len(name)
    t0, h = case["t0"], case["h"]
    if name in ref.MULTI:
        ts = [min(max(t0 + j * h, t0), float(sol.t)) for j in range(k)]
        ys = [np.array(sol.interpolate(t), float) for t in ts[:-1]] + [np.array(sol.y, float)]
        fs = [f(t, y) for t, y in zip(ts, ys)]
        ys.reverse()
        fs.reverse()
        if not np.all(np.isfinite(ys)):
            return
    else:
        ys = [np.array(sol.y, float)]
        fs = [f(t0, ys[0])]
    for n in range(case["n"]):
        t = float(sol.t)
        ret_t, ret_y = sol.step()
        t1 = float(sol.t)
        y1 = np.array(sol.y, float)
        label = "step %d of %s from t=%r" % (n + 1, name, t)
        hh = h if name in ref.FIXED else t1 - t
        scale = 1.0 + np.max(np.abs(y1)) + abs(hh) * max(np.max(np.abs(v)) for v in fs)
        if not np.isfinite(scale) or scale > 1e100:
            ctx.outcome("overflow")
            return
        if name in ref.RK:
            exp, _ = ref.rk_step(name, f, t, ys[0], fs[0], hh)
            # hh is recovered from two rounded times in the adaptive case
            slack = 1e-11 * scale + (0 if name in ref.FIXED else 8e-16 * abs(t1) * np.max(np.abs(fs[0])))
            req(np.all(np.abs(y1 - exp) <= slack), "%s: y=%s, the formula gives %s", label, y1, exp)
        else:
            known, bn = ref.lmm_known(name, ys, fs, h)
            if name in ref.IMPLICIT:
                res = y1 - h * bn * f(t1, y1) - known
                # the scalar finder stops on the size of its last update
                tol = 5e-8 * (1 + (60 * h if case["prob"] == "stiff" else 3 * h)) + 1e-11 * scale
                req(np.all(np.abs(res) <= tol), "%s: residual %s of the implicit formula at y=%s", label, res, y1)
            else:
                req(
                    np.all(np.abs(y1 - known) <= 1e-11 * scale),
                    "%s: y=%s, the formula gives %s", label, y1, known,
                )
        if name in ref.FIXED:
            req(abs(t1 - (t + h)) <= 4e-16 * max(1, abs(t1)) * 2, "%s: ends at %r", label, t1)
        req(
            np.array_equal(np.ravel(ret_y), y1) and float(np.ravel(ret_t)[0]) == t1,
            "%s: reported (%s, %s), the solver has (%s, %s)", label, ret_t, ret_y, t1, y1,
        )
        ys = [y1] + ys[: k - 1]
        fs = [f(t1, y1)] + fs[: k - 1]
        ctx.step()
        ctx.state(name, case["prob"], t1, tuple(y1))
    ctx.trace()


def jit_groups(tier):
    sub = [
        c for c in cases("quick", "jit")
        if c["prob"] == "U" and c["h"] in (0.25, 0.0625) and c["dim"] in (1, 2, 3)
    ]
    g = configs.per_solver(sub, ref.ALL)
    if tier == "thorough":
        return g
    # two processes' worth of compilation per solver family
    return [x for x in g if x[0]["solver"] in set(configs.REPS + configs.REPS_B)]
