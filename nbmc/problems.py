"""Right-hand sides. Every one is written so that it also compiles."""

import numpy as np

from .engine import Hang

BUDGET = 400_000


def U(t, y):
    """Universal: nonlinear, coupled, explicitly time dependent, any size."""
    n = y.size
    out = np.empty_like(y)
    for i in range(n):
        j = (i + 1) % n
        out[i] = (
            -0.5 * (i + 1) * y[i]
            + 0.3 * y[j]
            - 0.1 * y[i] * y[i] * y[i]
            + np.sin(2.0 * t + i)
        )
    return out


def decay(t, y):
    return -0.7 * y


def zero(t, y):
    return 0.0 * y


def clock(t, y):
    """y' depends on the time only, through a function that is not polynomial."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = np.cos(3.0 * t + i) * (1.0 + i)
    return out


def swing(t, y):
    out = np.empty_like(y)
    n = y.size
    for i in range(n):
        if i % 2 == 0:
            out[i] = y[(i + 1) % n]
        else:
            out[i] = -4.0 * y[i - 1]
    return out


def square(t, y):
    """Quadratic, signs matter."""
    return 0.2 * y * y - 1.0 - 0.2 * np.sin(t)


def stiff(t, y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -60.0 * (y[i] - np.cos(t)) + (i + 1.0)
    return out


def pulse(t, y):
    """Sudden kicks: forces rejected steps in adaptive solvers."""
    a = 0.0
    x = t - np.floor(t)
    if x > 0.45 and x < 0.55:
        a = 40.0
    return a - 0.3 * y


def big(t, y):
    return 1.0e6 * np.cos(t) - 0.2 * y


def units(t, y):
    """Component 0 grows with unit slope, the others are constant."""
    out = np.zeros_like(y)
    out[0] = 1.0
    return out


PROBLEMS = {
    f.__name__: f
    for f in (U, decay, zero, clock, swing, square, stiff, pulse, big, units)
}

_jitted = {}


def guard(f, budget=BUDGET):
    """Interpreted only: counts calls, and stops runaway loops."""
    left = [budget]

    def rhs(t, y):
        left[0] -= 1
        if left[0] < 0:
            raise Hang()
        if t > seen[1]:
            seen[1] = t
        if t < seen[0]:
            seen[0] = t
        return f(t, y)

    # the earliest and the latest time of an evaluation
    seen = rhs.seen = [np.inf, -np.inf]
    return rhs


def get(name, mode):
    """The right-hand side to hand to nbkode."""
    f = PROBLEMS[name]
    if mode == "interp":
        return guard(f)
    if name not in _jitted:
        import numba

        _jitted[name] = numba.njit(f)
    return _jitted[name]


def y0_of(dim, kind="mixed"):
    base = {
        "mixed": [0.8, -1.3, 0.4, 2.1, -0.2, 1.7],
        "neg": [-0.9, -1.1, -2.0, -0.3, -1.4, -0.6],
        "ones": [1.0] * 6,
        "zero": [0.0] * 6,
        "big": [1.0e6, -2.0e6, 3.0e5, 1.0e6, 2.0e6, -1.0e6],
        "tiny": [1e-9, -2e-9, 3e-9, 1e-9, -1e-9, 2e-9],
    }[kind]
    return np.array([base[i % 6] for i in range(dim)])
