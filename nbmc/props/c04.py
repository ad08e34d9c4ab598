"""C04: current time, state and derivative always agree."""

import itertools

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C04"
TECHNIQUE = "stateless model checking of the real code: an invariant evaluated after every call of every history up to a depth"
NOTE = (
    "All histories of the stated alphabet up to the stated depth, on every solver. The invariant (finite time, shapes, "
    "derivative equal to the right-hand side at the shown time and state, time on the grid t0 + m h or strictly "
    "increasing) needs no reference run. Compiled for 8 solvers."
)
RULE = "26 solvers x configurations x all histories of 9 calls up to depth 3 (quick) / 4 (thorough)"
ASSUMPTIONS = ["right-hand side is deterministic"]

OPS = (
    ("step", None, None),
    ("step", 3, None),
    ("skip", 2, "x"),
    ("step", None, 1.1),
    ("skip", None, 0.6),
    ("run", 0.9),
    ("run", [-0.05, 0.4, 0.2]),
    ("events", 1.3),
    ("interp", -0.1),
    ("bad",),
)


def cases(tier, mode):
    out = []
    depth = 4 if tier == "thorough" else 3
    hist = [h for d in range(1, depth + 1) for h in itertools.product(range(len(OPS)), repeat=d)]
    if tier == "quick":
        hist = [h for h in hist if len(h) < 3 or (h[0] < 8 and h[2] in (0, 3, 5, 7, 8))]
    for name in ref.ALL:
        cfgs = [
            configs.dyadic(name, dim=2),
            configs.free(name, dim=1),
        ]
        if name in ref.ADAPTIVE:
            cfgs.append(configs.free(name, dim=3, aprob="clock", t0=7.25))
        for c in cfgs:
            for h in hist:
                out.append(dict(c, ops=list(h)))
        for h in ((1,) * 60, (2, 5) * 40, (3, 7) * 15, (5, 0) * 25):
            out.append(dict(configs.dyadic(name, dim=3, prob="clock"), ops=list(h)))
            out.append(dict(configs.free(name, dim=2, prob="clock", aprob="pulse"), ops=list(h)))
    out.sort(key=lambda c: len(c["ops"]))
    return out


def run(case, ctx):
    name = case["solver"]
    raw = problems.PROBLEMS[case["prob"]]
    sol = lockstep.build(case, ctx.mode)
    fixed = name in ref.FIXED
    h = case.get("h")
    start = case["t0"] + ref.start_index(name) * h if fixed else case["t0"]
    dim = case["dim"]
    req = ctx.require
    state = {"t": None, "m": 0}

    def look(label):
        t, y, f = sol.t, sol.y, sol.f
        req(isinstance(t, float) and np.isfinite(t), "%s: time is %r", label, t)
        y, f = np.asarray(y), np.asarray(f)
        req(y.shape == (dim,) and y.dtype == np.float64, "%s: state %s %s", label, y.shape, y.dtype)
        req(f.shape == (dim,) and f.dtype == np.float64, "%s: derivative %s %s", label, f.shape, f.dtype)
        exp = raw(float(t), y.copy())
        req(
            lockstep.close(f, exp, 1e-9, 1e-11),
            "%s: derivative %s, the right-hand side at t=%r, y=%s is %s", label, f, t, y, exp,
        )
        last = state["t"]
        if last is not None:
            req(t >= last, "%s: time went back from %r to %r", label, last, t)
        if fixed:
            m = (t - start) / h
            req(
                abs(m - round(m)) < 1e-7 and round(m) >= 0,
                "%s: t=%r is not %r + m*%r", label, t, start, h,
            )
            k = int(round(m))
            tol = 3e-16 * (k + 2) * max(1.0, abs(t), abs(start))
            req(abs(t - (start + k * h)) <= tol, "%s: t=%r, step %d ends at %r", label, t, k, start + k * h)
            state["m"] = k
        state["t"] = float(t)
        ctx.state(name, case["prob"], float(t), tuple(y))

    look("new")
    for j, o in enumerate(case["ops"]):
        op = OPS[o]
        t = float(sol.t)
        hh = h if fixed else float(sol.h)
        label = "call %d %s at t=%r" % (j + 1, op, t)
        m = state["m"]
        kind = op[0]
        if kind == "step":
            kw = {}
            if op[1] is not None:
                kw["n"] = op[1]
            if op[2] is not None:
                kw["upto_t"] = t + op[2]
            ts, _ = sol.step(**kw)
            ts = np.atleast_1d(np.asarray(ts, float))
            allt = np.concatenate(([t], ts))
            req(np.all(np.diff(allt) > 0), "%s: times %s do not increase", label, allt)
            if fixed:
                req(
                    np.allclose(np.diff(allt), h, rtol=1e-9, atol=1e-12),
                    "%s: step sizes %s, expected %r", label, np.diff(allt), h,
                )
            if len(ts):
                req(float(sol.t) == ts[-1], "%s: reported %r, solver at %r", label, ts[-1], sol.t)
            look(label)
            if fixed and op[1] is not None:
                req(state["m"] == m + op[1], "%s: moved %d steps", label, state["m"] - m)
        elif kind == "skip":
            if op[1] is not None:
                sol.skip(n=op[1])
            else:
                sol.skip(upto_t=t + op[2])
            if op[1] is not None:
                req(float(sol.t) > t, "%s: time did not advance", label)
            look(label)
        elif kind == "run":
            q = t + np.atleast_1d(op[1]) * (1 if op[1] == 0.9 else hh)
            try:
                sol.run(q if np.size(op[1]) > 1 else float(q[0]))
                req(float(sol.t) >= np.max(q) - 1e-12, "%s: did not reach %r", label, np.max(q))
            except ValueError:
                # nothing recorded before the very first step
                req(np.min(q) < case["t0"], "%s: refused %s", label, q)
            look(label)
        elif kind == "events":
            sol.run_events(t + op[1], [lockstep.event("never", ctx.mode), lockstep.event("ticking", ctx.mode)])
            look(label)
        elif kind == "interp":
            try:
                sol.interpolate(t + op[1] * hh)
            except ValueError:
                pass
            look(label)
            req(float(sol.t) == t, "%s: interpolate moved the solver to %r", label, sol.t)
        else:
            for bad in (t + 50.0, case["t0"] - 1.0):
                try:
                    sol.interpolate(bad)
                except ValueError:
                    pass
                else:
                    req(False, "%s: interpolate(%r) did not raise", label, bad)
            try:
                sol.run([case["t0"] - 1.0, t + 0.5])
            except ValueError:
                pass
            else:
                req(False, "%s: run in the past did not raise", label)
            look(label)
            req(float(sol.t) == t, "%s: a refused call moved the solver to %r", label, sol.t)
        ctx.step()
        ctx.outcome(kind)
    ctx.trace()


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_B
    sub = [c for c in cases("quick", "jit") if c["prob"] == "U" and c["dim"] == 2 and len(c["ops"]) < 4]
    return configs.per_solver(sub, names, 400)
