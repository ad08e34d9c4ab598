"""Event functions and the model of run_events."""

import numpy as np

from . import lockstep, problems, ref

T0, H = 1.5, 0.25
OFF = 4
K = 6  # values per table


def _table(t, y, off):
    """Piecewise linear through a table of {-1, 0, 1} stored in the (constant)
    components of the state, one value per step end. Component 1: start index,
    2: decimal exponent of the amplitude, 3: slope sign of the state term."""
    x = (t - T0) / H - np.round(y[1])
    i = int(np.floor(x))
    if i < 0:
        i = 0
    if i > K - 2:
        i = K - 2
    a = np.round(y[off + i])
    b = np.round(y[off + i + 1])
    return 10.0 ** np.round(y[2]) * (a + (x - i) * (b - a))


def tab0(t, y):
    return _table(t, y, OFF)


def tab1(t, y):
    return _table(t, y, OFF + K)


def tab2(t, y):
    return _table(t, y, OFF + 2 * K)


def level(t, y):
    return y[0] - 0.5


def cross(t, y):
    return y[0] - y[y.size - 1] - 0.1


def tiny(t, y):
    return 1e-13 * (y[0] - 0.45)


def huge(t, y):
    return 1e13 * (y[0] - 0.45)


def ticks(t, y):
    return np.sin(7.0 * t + 0.3)


def buzz(t, y):
    return np.sin(61.0 * t) + 0.1 * y[0]


def clockt(t, y):
    return t - 2.6


def cubed(t, y):
    return (y[0] - 0.4) ** 3


def jumpy(t, y):
    return 1.0 if y[0] > 0.3 else -1e-3


def late(t, y):
    """Fast: several zeros per thousandth, wherever the clock started."""
    return np.sin(2048.0 * (t - np.floor(t)) + 0.3) + 1e-3 * np.tanh(y[0])


def faint(t, y):
    """Far below the smallest number of single precision."""
    return 1e-60 * np.sin(5.0 * t + 0.1)


def grid(t, y):
    """Zero at the multiples of 1/2: on the end of a step where steps are dyadic."""
    return t - 0.5 * np.floor(2.0 * t + 0.5)


def positive(t, y):
    return 1.0 + y[0] * y[0]


FUNCS = {
    f.__name__: f
    for f in (tab0, tab1, tab2, level, cross, tiny, huge, ticks, buzz, clockt, cubed, jumpy, late, faint, grid, positive)
}
_made = {}


def make(name, mode, direction=None, terminal=None):
    """An event function with its attributes (None: attribute missing)."""
    key = (name, mode, direction, terminal)
    if mode == "jit" and key in _made:
        return _made[key]
    f = FUNCS[name]
    if mode == "jit":
        import numba

        g = globals()
        if not hasattr(g["_table"], "py_func"):
            g["_table"] = numba.njit(g["_table"])
        ev = numba.njit(f)
    else:

        def ev(t, y):
            return f(t, y)

    if direction is not None:
        ev.direction = direction
    if terminal is not None:
        ev.terminal = terminal
    if mode == "jit":
        _made[key] = ev
    return ev


def table_y0(case):
    """State of the 'units' problem that carries the tables."""
    tabs = case["tabs"]
    y = [0.0, float(0 if case.get("first") == "none" else ref.start_index(case["solver"])), float(case.get("amp", 0)), 0.0]
    for tab in tabs:
        y += list(map(float, tab)) + [float(tab[-1])] * (K - len(tab))
    return np.array(y)


class Steps:
    """The steps of the undisturbed trajectory, with the interpolant of each."""

    def __init__(self, case, mode, y0=None):
        self.case = dict(case, _y0=y0) if y0 is not None else case
        self.name = case["solver"]
        self.rhs = problems.PROBLEMS[case["prob"]]
        self.sol = lockstep.build(self.case, mode)
        self.ts, self.ys, self.fs, self.hs = [], [], [], []
        self.push()
        self.dense = {}

    def push(self):
        s = self.sol
        self.ts.append(float(s.t))
        self.ys.append(np.array(s.y, float))
        self.fs.append(np.array(s.f, float))
        self.hs.append(float(s.h))

    def need(self, i):
        while len(self.ts) <= i:
            self.sol.step()
            self.push()

    def t(self, i):
        self.need(i)
        return self.ts[i]

    def value(self, t, j):
        """On the interpolant of the step from j to j+1."""
        if t == self.ts[j]:
            return self.ys[j]
        if t == self.ts[j + 1]:
            return self.ys[j + 1]
        a = (self.ts[j], self.ys[j], self.fs[j], self.ts[j + 1], self.ys[j + 1], self.fs[j + 1])
        if self.name in ref.ADAPTIVE:
            if j not in self.dense:
                self.dense[j] = ref.dense(self.name, self.rhs, *a)
            return self.dense[j](t)
        return ref.hermite(t, *a)

    def at(self, t):
        """On the interpolant, anywhere from the start on."""
        j = max(0, int(np.searchsorted(self.ts, t, "left")) - 1)
        self.need(j + 1)
        return self.value(t, j)

    def scale(self, j):
        return 1 + np.max(np.abs(self.ys[j])) + np.max(np.abs(self.ys[j + 1])) + abs(self.hs[j]) * np.max(np.abs(self.fs[j]))


def sgn(v):
    return (v > 0) - (v < 0)


def triggered(v0, v1, direction):
    up, down = v0 <= 0 <= v1, v0 >= 0 >= v1
    d = sgn(direction or 0)
    return up if d > 0 else down if d < 0 else (up or down)


def check_reports(ctx, st, name, direction, i0, i1, times, states, upto, label):
    """Reports of one event while stepping from i0 to i1.

    upto: reports after this time were dropped (terminal event of the last step).
    """
    req = ctx.require
    f = FUNCS[name]
    times = [float(x) for x in times]
    req(len(states) == len(times), "%s: %d times and %d states", label, len(times), len(states))
    req(all(a < b for a, b in zip(times, times[1:])), "%s: times not increasing: %s", label, times)
    st.need(i1)
    vals = [float(f(st.ts[i], st.ys[i])) for i in range(i0, i1 + 1)]
    k = 0
    free = vals[0] == 0  # a zero at the very start may have been reported before
    last = None
    for j in range(i0, i1):
        v0, v1 = vals[j - i0], vals[j - i0 + 1]
        a, b = st.ts[j], st.ts[j + 1]
        fires = triggered(v0, v1, direction)
        must = fires
        if v0 == 0 and v1 == 0:
            must, free = False, True
        elif v0 == 0 and fires:
            # the zero is on the start of the step
            if last == a or free:
                must = False
        here = None
        if k < len(times) and a <= times[k] <= b:
            here = times[k]
            # a report on the common end of two steps belongs to the first one that
            # may have it
            if here == b and b != a and v1 == 0 and not fires:
                here = None
            elif not fires:
                req(False, "%s: reported t=%r, but the step [%r, %r] goes from %r to %r (direction %r)", label, here, a, b, v0, v1, direction)
        if here is None:
            if must and upto is not None:
                # allowed only if the zero may be after the cut
                req(
                    j == i1 - 1 and possible_after(st, f, j, v0, v1, upto),
                    "%s: the step [%r, %r] goes from %r to %r (direction %r): not reported", label, a, b, v0, v1, direction,
                )
                continue
            req(not must, "%s: the step [%r, %r] goes from %r to %r (direction %r): not reported", label, a, b, v0, v1, direction)
            if v1 != 0:
                free = False
            continue
        # accuracy, on the interpolated solution
        zero_at(ctx, st, f, j, here, v0, v1, label)
        w = st.value(here, j)
        req(
            np.shape(states[k]) == np.shape(w)
            and bool(np.all(np.abs(np.asarray(states[k], float) - w) <= 1e-8 * st.scale(j))),
            "%s: state %s at t=%r, the solution is %s", label, states[k], here, w,
        )
        last = here
        k += 1
        if v1 != 0:
            free = False
        ctx.outcome("reports")
    req(
        k == len(times),
        "%s: reported %s, but only the first %d belong to steps that fire (values %s from t=%r)",
        label, times, k, vals, st.ts[i0],
    )


def possible_after(st, f, j, v0, v1, cut):
    if cut >= st.ts[j + 1]:
        return False
    if v1 == 0:
        return True
    v = float(f(cut, st.value(cut, j)))
    if sgn(v) != sgn(v1) or abs(v) < 1e-9 * max(abs(v0), abs(v1)):
        return True
    # several zeros in the step: any of them may be the reported one
    grid = [cut + (st.ts[j + 1] - cut) * x / 200 for x in range(1, 200)]
    return any(sgn(float(f(t, st.value(t, j)))) != sgn(v1) for t in grid)


def zero_at(ctx, st, f, j, t, v0, v1, label):
    a, b = st.ts[j], st.ts[j + 1]
    if (t == a and v0 == 0) or (t == b and v1 == 0):
        return
    d = 1e-9 * (b - a) + 8 * np.spacing(abs(t))
    lo, hi = max(a, t - d), min(b, t + d)
    e0, e1 = float(f(lo, st.value(lo, j))), float(f(hi, st.value(hi, j)))
    mid = float(f(t, st.value(t, j)))
    ctx.require(
        sgn(e0) * sgn(e1) <= 0 or sgn(e0) * sgn(mid) <= 0,
        "%s: reported t=%r in [%r, %r], where the function is %r (%r and %r around)", label, t, a, b, mid, e0, e1,
    )
