"""The reference model of the public API, and its lock-step execution.

The model is a cursor on a trajectory: the list of (t, y, f) that a fresh solver
visits when it is single-stepped. Every public call is a total function of the
cursor: how far it moves, what it returns, which exception it raises. The
model knows nothing about buffers, loops or interpolators.
"""

import numpy as np

from . import problems, ref
from .engine import Violation

RT, AT = 1e-9, 1e-12


def close(a, b, rt=RT, at=AT):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= at + rt * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def build(case, mode, **over):
    """Construct the solver that a case describes."""
    import nbkode

    c = dict(case)
    c.update(over)
    cls = getattr(nbkode, c["solver"])
    rhs = c.get("_rhs")
    if rhs is None:
        rhs = problems.get(c["prob"], mode)
    kw = dict(c.get("kw", {}))
    if c["solver"] not in ref.ADAPTIVE:
        kw.setdefault("h", c["h"])
    if c.get("bound") is not None:
        kw["t_bound"] = c["bound"]
    if c.get("first") is not None and c["solver"] in ref.MULTI:
        kw["first_stepper_cls"] = None if c["first"] == "none" else c["first"]
    y0 = c.get("_y0")
    if y0 is None:
        y0 = problems.y0_of(c["dim"], c.get("y0", "mixed"))
    sol = cls(rhs, c["t0"], y0, **kw)
    if c.get("bound") is not None:
        # what is evaluated from here on (start-ups may look further)
        watched[0] = getattr(rhs, "seen", None)
        if watched[0]:
            watched[0][:] = np.inf, -np.inf
    return sol


watched = [None]


_cache = {}


class Traj:
    """Trajectory of a fresh solver that is only single-stepped."""

    def __init__(self, case, mode):
        self.case = {k: v for k, v in case.items() if k not in ("ops", "bound")}
        self.mode = mode
        self.name = case["solver"]
        self.sol = build(self.case, mode)
        self.dim = self.sol.y.size
        k = ref.start_index(self.name)
        if case.get("first") == "none":
            k = 0
        self.start = k
        self.t0 = float(case["t0"])
        self.ts, self.ys, self.fs, self.hs = [], [], [], []
        # states of the start-up (only their times matter to the model)
        for j in range(k):
            self.ts.append(self.t0 + j * float(case["h"]))
            self.ys.append(None)
            self.fs.append(None)
            self.hs.append(float(case["h"]))
        self._push()
        self.vals = {}

    def _push(self):
        s = self.sol
        self.ts.append(float(s.t))
        self.ys.append(np.array(s.y, float))
        self.fs.append(np.array(s.f, float))
        self.hs.append(float(s.h))

    def need(self, i):
        while len(self.ts) <= i:
            self.sol.step()
            self._push()

    def t(self, i):
        self.need(i)
        return self.ts[i]

    def index_for(self, tq):
        """First index whose time is >= tq."""
        i = self.start
        while self.t(i) < tq:
            i += 1
        return i

    def value(self, tq):
        """Value at tq: a fresh solver single-stepped until it covers tq."""
        if tq not in self.vals:
            s = build(self.case, self.mode)
            while s.t < tq:
                s.step()
            self.vals[tq] = np.array(s.interpolate(tq), float)
        return self.vals[tq]


def traj(case, mode):
    key = (
        mode, case["solver"], case["prob"], case["dim"], case["t0"], case.get("h"),
        case.get("y0"), case.get("first"), repr(sorted(case.get("kw", {}).items())),
    )
    if key not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[key] = Traj(case, mode)
    return _cache[key]


class Model:
    def __init__(self, tr, bound=None):
        self.tr = tr
        self.i = tr.start
        self.bound = np.inf if bound is None else float(bound)

    # -- helpers
    def clone(self):
        m = Model(self.tr, self.bound)
        m.i = self.i
        return m

    def fits(self, limit):
        self.tr.need(self.i)
        return self.tr.ts[self.i] + self.tr.hs[self.i] <= limit

    def oldest(self):
        n = max(ref.hist_len(self.tr.name), 2)
        return self.tr.t(max(0, self.i - (n - 1)))

    @property
    def t(self):
        return self.tr.t(self.i)

    def resolve(self, spec):
        """A time relative to the current position."""
        tr, i = self.tr, self.i
        if not isinstance(spec, str):
            return float(spec)
        if spec == "t0":
            return tr.t0
        if spec == "before":
            return tr.t0 - 0.5
        if spec == "behind":
            return self.t - 0.25 * tr.hs[i]
        if spec == "prev":
            return tr.t(max(i - 1, 0))
        if spec == "old":
            return self.oldest()
        if spec == "now":
            return self.t
        if spec == "bound":
            return self.bound
        if spec == "over":
            return self.bound + 0.5
        if spec.startswith("*"):
            # in units of the proposed step size
            return self.t + float(spec[1:]) * tr.hs[i]
        if spec.startswith("+"):
            x = float(spec[1:])
            k = int(np.floor(x))
            a = tr.t(i + k)
            if x == k:
                return a
            return a + (x - k) * (tr.t(i + k + 1) - a)
        if spec.startswith("-"):
            x = float(spec[1:])
            k = int(np.ceil(x))
            a, b = tr.t(max(i - k, 0)), tr.t(max(i - k + 1, 0))
            return a + (k - x) * (b - a)
        raise ValueError(spec)

    # -- the calls: ("ok", ts, ys) or ("exc", (names...))
    def step(self, n=None, upto=None):
        tr = self.tr
        none = ("ok", [], [])
        if upto is not None:
            if upto < self.t:
                return none
            if upto > self.bound:
                return ("exc", ("ValueError",))
        ts, ys = [], []
        limit = self.bound if upto is None else upto
        want = (1 if upto is None else None) if n is None else n
        while (want is None or len(ts) < want) and self.fits(limit):
            self.i += 1
            tr.need(self.i)
            ts.append(tr.ts[self.i])
            ys.append(tr.ys[self.i])
        if upto is None and len(ts) < want:
            return ("exc", ("RuntimeError",))
        return ("ok", ts, ys)

    def run(self, tq):
        tq = [float(x) for x in np.atleast_1d(tq)]
        if min(tq) < self.oldest():
            # the history may be longer than the model's, t0 is the limit
            hard = min(tq) < self.tr.t0
            return ("exc", ("ValueError",)) if hard else ("excopt", ("ValueError",))
        if max(tq) > self.bound:
            return ("exc", ("ValueError",))
        top = max(tq)
        while self.t < top and self.fits(self.bound):
            self.i += 1
            self.tr.need(self.i)
        ts = [x for x in tq if x <= self.t]
        return ("ok", ts, [self.tr.value(x) for x in ts])

    def interpolate(self, tq):
        if tq > self.t or tq < self.tr.t0:
            return ("exc", ("ValueError",))
        if tq < self.oldest():
            return ("excopt", ("ValueError",), tq)
        return ("val", tq, self.tr.value(tq))


def never(t, y):
    return 1.0 + 0.0 * y[0]


def ticking(t, y):
    return np.sin(5.0 * t)


_ev = {}


def event(name, mode):
    f = {"never": never, "ticking": ticking}[name]
    if mode == "interp":
        return f
    if name not in _ev:
        import numba

        _ev[name] = numba.njit(f)
    return _ev[name]


def expand(op, m):
    """Concrete arguments of an operation, from the model's position."""
    kind = op[0]
    if kind in ("step", "skip"):
        n = op[1]
        upto = None if op[2] is None else m.resolve(op[2])
        return kind, n, upto
    if kind in ("run", "events"):
        spec = op[1]
        if isinstance(spec, (list, tuple)):
            return kind, [m.resolve(s) for s in spec]
        return kind, m.resolve(spec)
    return kind, m.resolve(op[1])


def execute(sol, args, mode):
    """Returns ("ok", ts, ys) / ("val", v) / ("none",) / ("exc", type name)."""
    kind = args[0]
    try:
        if kind == "step":
            kw = {}
            if args[1] is not None:
                kw["n"] = args[1]
            if args[2] is not None:
                kw["upto_t"] = args[2]
            ts, ys = sol.step(**kw)
            return ("ok", ts, ys)
        if kind == "skip":
            kw = {}
            if args[1] is not None:
                kw["n"] = args[1]
            if args[2] is not None:
                kw["upto_t"] = args[2]
            r = sol.skip(**kw)
            return ("none", r)
        if kind == "run":
            ts, ys = sol.run(args[1])
            return ("ok", ts, ys)
        if kind == "events":
            ts, ys, te, ye = sol.run_events(
                args[1], [event("never", mode), event("ticking", mode)]
            )
            return ("ok", ts, ys)
        return ("val", sol.interpolate(args[1]))
    except (ValueError, RuntimeError, IndexError, TypeError, ZeroDivisionError) as e:
        return ("exc", type(e).__name__, str(e)[:80])


def as_rows(ys, n, dim):
    """step() without arguments returns the state itself; else one row each."""
    ys = np.asarray(ys, float)
    if n == 0:
        return ys.reshape(0, dim) if ys.size == 0 else ys
    if ys.ndim == 1 and n == 1 and ys.size == dim:
        return ys.reshape(1, dim)
    return ys


def compare(exp, got, args, sol, m, before, ctx, label):
    """One call of the implementation against the model."""
    tr = m.tr
    kind = args[0]
    req = ctx.require
    if exp[0] == "excopt":
        if got[0] == "exc":
            req(got[1] in exp[1], "%s: raised %s", label, got[1:])
            m.i = before
        else:
            # answered: the value still has to be right
            if kind == "interpolate":
                req(close(got[1], tr.value(args[1])), "%s: wrong old value", label)
            else:
                x = [float(v) for v in np.atleast_1d(args[1])]
                req(
                    close(got[2], np.array([tr.value(v) for v in x])),
                    "%s: wrong old value", label,
                )
                m.i = max(before, tr.index_for(max(x)))
    elif exp[0] == "exc":
        req(got[0] == "exc", "%s: %s expected, nothing raised", label, exp[1])
        req(got[1] in exp[1], "%s: %s expected, got %s", label, exp[1], got[1:])
        ctx.outcome("raises " + got[1])
    else:
        req(got[0] != "exc", "%s: raised %s", label, got[1:])
        if kind == "skip":
            req(got[1] is None, "%s: skip returned %r", label, got[1])
        elif kind == "interpolate":
            v = np.asarray(got[1], float)
            req(v.shape == (tr.dim,), "%s: shape %s", label, v.shape)
            req(close(v, exp[2]), "%s: value %s instead of %s", label, v, exp[2])
        else:
            ts = np.atleast_1d(np.asarray(got[1], float))
            req(
                ts.ndim == 1 and len(ts) == len(exp[1]),
                "%s: %s times returned, %d expected", label, ts.shape, len(exp[1]),
            )
            ys = as_rows(got[2], len(ts), tr.dim)
            req(close(ts, exp[1]), "%s: times %s instead of %s", label, ts, exp[1])
            req(
                close(ys, np.array(exp[2], float).reshape(len(ts), tr.dim)),
                "%s: states %s instead of %s", label, ys, exp[2],
            )
    req(
        close(sol.t, m.t, 1e-13, 1e-15),
        "%s: solver is at t=%r, expected %r (steps %d)", label, float(sol.t), m.t, m.i,
    )
    req(close(sol.y, tr.ys[m.i]), "%s: y=%s, expected %s", label, sol.y, tr.ys[m.i])
    req(close(sol.f, tr.fs[m.i]), "%s: f=%s, expected %s", label, sol.f, tr.fs[m.i])


def predict(m, args):
    kind = args[0]
    if kind in ("step", "skip"):
        return m.step(args[1], args[2])
    if kind in ("run", "events"):
        return m.run(args[1])
    return m.interpolate(args[1])


def run_history(case, ctx, ops=None, bound=None):
    """Execute one operation history in lock step with the model."""
    mode = ctx.mode
    tr = traj(case, mode)
    bound = case.get("bound") if bound is None else bound
    m = Model(tr, bound)
    sol = build(case, mode, bound=bound)
    ctx.require(close(sol.t, m.t, 1e-13, 1e-15), "new solver is at t=%r, expected %r", float(sol.t), m.t)
    ops = case["ops"] if ops is None else ops
    for k, op in enumerate(ops):
        args = expand(op, m)
        before = m.i
        exp = predict(m, args)
        if exp[0] == "exc" and exp[1] == ("ValueError",):
            m.i = before
        got = execute(sol, args, mode)
        label = "call %d %s%s" % (k + 1, args[0], tuple(args[1:]))
        compare(exp, got, args, sol, m, before, ctx, label)
        ctx.step()
        ctx.outcome(args[0])
        ctx.state(case["solver"], case["prob"], case["dim"], case["t0"], case.get("h"), bound, m.i, round(float(sol.h), 12))
    ctx.trace()
    return sol, m
