"""C02: each solver has the order of accuracy of its method."""

from fractions import Fraction

import numpy as np

from .. import configs, problems, ref, trees

PID = "C02"
TECHNIQUE = "exhaustive enumeration of the finite basis of elementary differentials (rooted trees) on the real step function"
NOTE = (
    "By Butcher's theorem a one-step method has order p iff it integrates the rooted-tree system exactly up "
    "to order p; multistep methods iff they are exact on polynomials. All 200 trees up to order 8, autonomous "
    "and time-dependent, are integrated by the real solvers and compared with the exact solution."
)
RULE = "26 solvers x all rooted trees up to the order of the method x {autonomous, time dependent} x start times x step sizes; k steps each"
ASSUMPTIONS = [
    "the starting values of multistep solvers come from DOP853, exact on these systems",
    "compiled: the time-dependent trees at one start time for 8 (thorough: 26) solvers",
]


def cases(tier, mode):
    out = []
    hs = (0.25, 0.5) if tier == "quick" else (0.25, 0.5, 0.3, 1.0, 0.0625)
    t0s = (0.0, 1.5, -3.25) if tier == "quick" else (0.0, 1.5, -3.25, 40.0)
    for name in ref.ALL:
        for timed in (False, True):
            for t0 in t0s:
                for h in hs:
                    for n in (1, 6) if tier == "quick" else (1, 2, 6, 12):
                        out.append({"solver": name, "timed": timed, "t0": t0, "h": h, "n": n})
    out.sort(key=lambda c: c["n"])
    return out


_compiled = {}


def run(case, ctx):
    import nbkode

    name, h, t0 = case["solver"], case["h"], case["t0"]
    p = ref.ORDER[name]
    all_trees, _ = trees.system(p)
    if ctx.jit:
        key = (p, case["timed"], t0)
        if key not in _compiled:
            _compiled[key] = trees.compiled_rhs(*key)
        f = _compiled[key]
    else:
        f = problems.guard(trees.rhs(p, case["timed"], t0))
    y0 = np.zeros(len(all_trees))
    cls = getattr(nbkode, name)
    if name in ref.ADAPTIVE:
        # everything is accepted, and the step stays h
        sol = cls(f, t0, y0, first_step=h, max_step=h, min_step=h, atol=1e8, rtol=1e-3)
    elif name in ref.MULTI:
        sol = cls(f, t0, y0, h=h, first_stepper_cls="DOP853")
    else:
        sol = cls(f, t0, y0, h=h)
    g = np.array([float(Fraction(1, trees.gamma(t))) for t in all_trees])
    q = np.array([trees.order(t) for t in all_trees])
    for n in range(case["n"]):
        if ref.start_index(name) == 0 or n > 0:
            sol.step()
        else:
            # the start-up counts, and is checked first
            pass
        x = float(sol.t) - t0
        exact = g * x**q
        # implicit solvers stop within 1.5e-8 per step
        tol = 1e-12 * (1 + np.abs(exact)) * (n + 1)
        if name in ref.IMPLICIT:
            tol = tol + 1e-6 * (1 + x) ** q
        elif ref.start_index(name):
            tol = tol * 100
        bad = np.abs(sol.y - exact) > tol
        if np.any(bad):
            i = int(np.nonzero(bad)[0][0])
            ctx.require(
                False,
                "%s (order %d) is wrong at order %d: tree %s after %d steps of %s: %r, exact %r",
                name, p, q[i], all_trees[i], n + 1, h, float(sol.y[i]), float(exact[i]),
            )
        ctx.checks += len(exact)
        ctx.step()
        ctx.state(name, case["timed"], t0, h, n)
    ctx.outcome("order %d" % p)
    ctx.trace()


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_C
    sub = [c for c in cases("quick", "jit") if c["timed"] and c["t0"] == 1.5 and c["n"] == 6]
    return configs.per_solver(sub, names)
