"""C20: compiled and uncompiled modes give the same results."""

import itertools
import warnings

import numpy as np

from .. import configs, events, lockstep, problems, ref

PID = "C20"
TECHNIQUE = "differential model checking of the real code: every call history up to a depth is executed compiled and, in a second process, uncompiled; all observations must agree"
NOTE = (
    "The same script runs in two processes, one with NBKODE_NONUMBA=1 and the repository's own stand-in for numba, one compiled. "
    "After every call the results (shape, type and value), the exception type, and t, y, f, h are recorded and compared to rounding."
)
RULE = "26 solvers x 3 configurations (exact steps, inexact/rejected steps, bounded) x all histories of 22 calls up to depth 2 (26 calls with events on 8 solvers in the quick tier, on all in the thorough tier); constructor variants"
ASSUMPTIONS = ["NUMBA_OPT=0 is the compiled mode used, as in the test suite"]
SHIM = False

OPS = (
    ("step", None, None), ("step", 3, None), ("step", None, 2.25), ("step", 2, 5.0), ("step", 0, None), ("step", None, -1.0),
    ("skip", None, None), ("skip", 2, None), ("skip", None, 1.5), ("step", 100, None), ("skip", 100, None), ("skip", 0, 3.0),
    ("run", 0.5), ("run", [1.5, -0.25, 0.25, 0.25]), ("runa", [0.5, 1.0, 3.0]), ("run", ["bound+"]), ("run", ["past", 1.0]), ("run", ["bound"]),
    ("interp", -0.5), ("interp", 0.0), ("interp", 0.5), ("interp", -50.0),
)
EV_OPS = (
    ("events", [0.75, 2.5], ((0, None, None), (1, 1, None))),
    ("events", [4.0, 0.5], ((0, -1, None), (1, None, True), (2, None, None))),
    ("events", 6.5, ((2, None, True), (1, None, True))),
    ("events", [9.0, 3.0], ((2, 0.5, None), (3, -0.5, False), (2, -2.5, None))),
)
EVF = ("level", "ticks", "buzz", "faint")
EV_REPS = ("RungeKutta4", "AdamsBashforth3", "AdamsMoulton3", "BDF2", "RungeKutta23", "RungeKutta45", "DOP853", "BackwardEuler")


def cases(tier, mode):
    return []


def cfgs(name):
    out = [configs.dyadic(name, bound=3.6), configs.free(name, dim=1, aprob="U"), configs.free(name, dim=3, aprob="U", bound=1.0)]
    if name in ref.ADAPTIVE:
        out.append(configs.free(name, dim=2, aprob="U", kw={"rtol": 1e-6, "atol": 1e-9, "min_step": 0.01, "max_step": 0.2}))
    return out


def group(name, tier):
    n = len(OPS)
    evs = tier == "thorough" or name in EV_REPS
    ops = list(OPS) + (list(EV_OPS) if evs else [])
    m = len(ops)
    hist = [()] + [(i,) for i in range(m)] + list(itertools.product(range(m), repeat=2))
    if tier == "thorough":
        core = [0, 2, 5, 8, 12, 13, 16, 18, 20, 22, 23]
        hist += list(itertools.product(core, repeat=3))
    out = []
    for c in cfgs(name):
        for h in hist:
            out.append(dict(c, ops=[ops[i] for i in h]))
    for c in cfgs(name):
        for t0, y0 in ((0, "ints"), (-3, "list"), (2.5, "scalar"), (0.0, "tuple"), (1e3, "f32")):
            out.append(dict(c, t0=t0, form=y0, ops=[("step", 3, None), ("run", 0.5)]))
        if name in ref.MULTI:
            out.append(dict(c, first="none", ops=[("step", 3, None), ("run", 0.5)]))
            out.append(dict(c, bound=c["t0"] + 0.5 * c["h"], ops=[("step", 1, None)]))
    out.sort(key=lambda c: len(c["ops"]))
    return out


def jit_groups(tier):
    order = sorted(ref.ALL, key=lambda n: (n not in EV_REPS, n not in ref.ADAPTIVE, n))
    return [group(n, tier) for n in order]


def rec(x):
    if isinstance(x, tuple) or isinstance(x, list):
        return [type(x).__name__] + [rec(i) for i in x]
    if isinstance(x, np.ndarray):
        return ["array", list(x.shape), str(x.dtype), [float(v) for v in x.ravel()]]
    if x is None:
        return None
    return ["number", float(x)]


def form_y0(case):
    y = problems.y0_of(case["dim"])
    f = case.get("form")
    if f == "ints":
        return [int(round(2 * v)) for v in y]
    if f == "list":
        return [float(v) for v in y]
    if f == "tuple":
        return tuple(float(v) for v in y)
    if f == "f32":
        return y.astype(np.float32)
    if f == "scalar":
        return float(y[0])
    return y


def observe(case, mode):
    out = []

    def state(sol):
        out.append(["state", rec(np.asarray(sol.t)), rec(np.asarray(sol.y)), rec(np.asarray(sol.f)), rec(np.asarray(sol.h, float))])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sol = lockstep.build(case, mode, _y0=form_y0(case))
        except Exception as e:
            return [["exc", type(e).__name__]]
        state(sol)
        h = float(sol.h) if case["solver"] in ref.ADAPTIVE else float(case["h"])
        bound = case.get("bound")
        for op in case["ops"]:
            t = float(sol.t)
            kind = op[0]
            try:
                if kind in ("step", "skip"):
                    kw = {}
                    if op[1] is not None:
                        kw["n"] = op[1]
                    if op[2] is not None:
                        kw["upto_t"] = t + op[2] * h
                    # a hundred steps only where the bound stops them
                    if op[1] == 100 and bound is None:
                        kw["n"] = 7
                    r = getattr(sol, kind)(**kw)
                elif kind in ("run", "runa"):
                    q = op[1] if isinstance(op[1], list) else [op[1]]
                    far = bound if bound is not None else t + 4 * h
                    q = [{"bound": far, "bound+": far + 0.01, "past": t - 40 * h}.get(x) if isinstance(x, str) else t + x * h for x in q]
                    if kind == "runa":
                        q = np.array(q)
                    r = sol.run(q if isinstance(op[1], list) else q[0])
                elif kind == "events":
                    evs = [events.make(EVF[i], mode, d, term) for i, d, term in op[2]]
                    q = [t + x * h for x in op[1]] if isinstance(op[1], list) else t + op[1] * h
                    r = sol.run_events(q, evs)
                else:
                    r = sol.interpolate(t + op[1] * h)
                out.append(["ok", rec(r)])
            except Exception as e:
                out.append(["exc", type(e).__name__])
            state(sol)
    return out


def same(a, b, tol, path=""):
    """Path of the first difference, or None."""
    if type(a) is not type(b):
        return "%s: %s, uncompiled %s" % (path, a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %s, uncompiled %s" % (path, str(a)[:150], str(b)[:150])
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, "%s.%d" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * (1e-3 + abs(b)):
            return None
        return "%s: %r, uncompiled %r" % (path, a, b)
    return None if a == b else "%s: %r, uncompiled %r" % (path, a, b)


_peer = []


def run(case, ctx):
    if not _peer:
        from ..peer import Peer

        _peer.append(Peer(PID))
    a = observe(case, "jit")
    import json

    a = json.loads(json.dumps(a))
    b = _peer[0].ask(case)
    ctx.require(isinstance(b, list), "uncompiled: %s", b)
    # an error estimate close to rounding makes the step sizes differ a little
    own = case["solver"] in ref.ADAPTIVE and "first_step" not in case.get("kw", {})
    d = same(a, b, 1e-4 if own else 1e-7)
    ctx.require(d is None, "%s %s: compiled %s", case["solver"], case["ops"], d)
    ctx.step(len(case["ops"]) + 1)
    for r in a:
        ctx.outcome(r[0] if r[0] != "exc" else r[1])
    ctx.state(case["solver"], case["dim"], case["t0"], tuple(map(str, a[-1])))
    ctx.trace()
