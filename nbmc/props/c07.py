"""C07: integration never passes the time bound, and says so."""

import itertools

import numpy as np

from .. import configs, lockstep, ref

PID = "C07"
TECHNIQUE = "stateless model checking of the real code: all call histories around the time bound in lock step with a cursor model"
NOTE = (
    "All histories of the alphabet up to depth 2 (quick) / 3 (thorough) from several positions, for bounds below, on, "
    "between and beyond step ends. The model says which steps fit, what is returned and what is raised. "
    "Variable-step solvers stop short of the bound: recorded as known findings, case by case."
)
RULE = "26 solvers x 24 bounds (exact, one rounding error beside, zero, negative) x prefixes x all histories of 20 calls up to depth 2/3; plus reaching the bound with variable steps"
ASSUMPTIONS = ["a variable step fits if its proposed size fits"]

# bounds, in steps after the first position
BOUNDS = (0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 3.25, 6.0, 8.5)
OPS = (
    ("step", None, None),
    ("skip", None, None),
    ("step", 1, None),
    ("step", 4, None),
    ("skip", 3, None),
    ("step", None, "bound"),
    ("skip", None, "bound"),
    ("step", 2, "bound"),
    ("step", None, "over"),
    ("skip", 2, "over"),
    ("run", "bound"),
    ("run", ["over", "now"]),
    ("run", ["bound", "+0.5b", "-0.5"]),
    ("events", ["+0.25b", "bound", "+1b"]),
    ("step", 9, None),
    ("skip", None, "behind"),
    ("interpolate", "over"),
    ("skip", None, "over"),
    ("step", 2, "over"),
    ("events", "over"),
)


def cases(tier, mode):
    out = []
    idx = range(len(OPS))
    hist = [(i,) for i in idx] + list(itertools.product(idx, repeat=2))
    if tier == "thorough":
        hist += list(itertools.product(idx, repeat=3))
    for name in ref.ALL:
        for b in BOUNDS:
            c = configs.dyadic(name, dim=1 if b in (0.5, 3.0) else 2)
            hh = hist
            if tier == "quick" and b not in (1.0, 1.5, 3.25):
                hh = [h for h in hist if len(h) < 2 or h[1] in (0, 1, 10)]
            out += [dict(c, b=b, ops=[OPS[i] for i in h]) for h in hh]
        # a bound at or below zero, and bounds one rounding error before and
        # after the end of a step
        few = [h for h in hist if len(h) < 2 or h[0] in (0, 3, 5, 10)]
        if tier == "quick":
            few = [h for h in few if len(h) < 2 or h[1] in (0, 1, 5, 10, 13)]
        for t0, b, nudge in (
            (-2.0, "zero", 0), (-2.0, "zero", -1), (-2.0, "zero", 1),
            (-4.0, 2.0, 0), (-4.0, 2.0, -1), (-4.0, 2.0, 1), (-4.0, 2.5, 0),
            (1.5, 2.0, -1), (1.5, 2.0, 1), (1.5, 1.0, -1), (0.0, 2.0, -1),
            (1.0e6, 2.0, 0), (1.0e6, 2.0, -1), (-1.0e6, 2.0, -1), (-1.0e6, 2.0, 0),
        ):
            c = configs.dyadic(name, t0=t0)
            out += [dict(c, b=b, nudge=nudge, ops=[OPS[i] for i in h]) for h in few]
        for b in (0.5, 1.5, 3.3):
            c = configs.free(name, dim=2)
            hh = hist if tier == "thorough" else [h for h in hist if len(h) < 2 or h[0] in (0, 3, 5, 10)]
            out += [dict(c, b=b, ops=[OPS[i] for i in h]) for h in hh]
    for name in ref.ADAPTIVE:
        for kind in ("run", "step"):
            for bound in (5.0, 0.7):
                out.append({"solver": name, "reach": kind, "prob": "decay", "dim": 1, "t0": 0.0, "bound": bound, "ops": []})
    out.sort(key=lambda c: len(c["ops"]))
    return out


def reach(case, ctx):
    """Documented: 'In variable step methods, the integration stops at t_bound'."""
    b = case["bound"]
    sol = lockstep.build(case, ctx.mode)
    ctx.step()
    ctx.trace()
    if case["reach"] == "run":
        want = b * np.array([0.2, 0.4, 0.6, 0.8, 1.0])
        ts, _ = sol.run(want)
        ctx.require(
            lockstep.close(ts, want),
            "%s with t_bound=%r: run(%s) only returned t=%s", case["solver"], b, want, ts,
        )
    else:
        for _ in range(10000):
            try:
                sol.step()
            except RuntimeError:
                break
        ctx.require(sol.t == b, "%s with t_bound=%r: stepping stops at t=%r", case["solver"], b, float(sol.t))


def run(case, ctx):
    if "reach" in case:
        return reach(case, ctx)
    tr = lockstep.traj(case, ctx.mode)
    if case["b"] == "zero":
        i, frac = tr.index_for(0.0), 0
    else:
        i, frac = tr.start + int(case["b"]), case["b"] % 1
    bound = tr.t(i)
    if case.get("nudge"):
        bound = float(np.nextafter(bound, case["nudge"] * np.inf))
    if frac:
        # a fraction of the proposed size of the next step
        bound = bound + frac * tr.hs[i]
    ops = []
    for op in case["ops"]:
        spec = op[1] if op[0] in ("run", "events") else None
        if isinstance(spec, list):
            op = [op[0], [
                s if not (isinstance(s, str) and s.endswith("b")) else
                (bound - float(s[1:-1]) * 0.25 * (bound - tr.ts[tr.start])) for s in spec
            ]]
        ops.append(op)
    sol, _ = lockstep.run_history(case, ctx, ops=ops, bound=bound)
    ctx.require(float(sol.t) <= bound, "solver is at %r, beyond the bound %r", float(sol.t), bound)
    if lockstep.watched[0]:
        lo, hi = lockstep.watched[0]
        eps = 4 * np.spacing(abs(bound))
        ctx.require(hi <= bound + eps, "the right-hand side was evaluated at %r, beyond the bound %r", hi, bound)
        ctx.require(lo >= case["t0"] - eps, "the right-hand side was evaluated at %r, before the start", lo)


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS
    sub = [c for c in cases("quick", "jit") if c["prob"] == "U" and c["dim"] == 2]
    sub = [c for c in sub if c.get("b") in (0.0, 1.0, 1.5, 3.25) and not c.get("nudge")]
    return configs.per_solver(sub, names, 500)
