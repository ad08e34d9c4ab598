"""Reference formulas, independent of the code under test.

Runge-Kutta tableaus are written as exact fractions (explicit methods), or come
from SciPy (embedded pairs). Linear multistep coefficients are not written down
at all: they are the unique solution, in exact rational arithmetic, of the
conditions that define each family.
"""

from fractions import Fraction as Fr

import numpy as np
from scipy.integrate._ivp import dop853_coefficients as dop
from scipy.integrate._ivp import rk

# name -> family, k
LMM = {"ForwardEuler": ("AB", 1), "BackwardEuler": ("AM", 1)}
for _k in range(1, 6):
    LMM["AdamsBashforth%d" % _k] = ("AB", _k)
    LMM["AdamsMoulton%d" % _k] = ("AM", _k)
for _k in range(1, 7):
    LMM["BDF%d" % _k] = ("BDF", _k)

_T = {
    "Runge2": ([[], ["1/2"]], ["0", "1"]),
    "Runge3": ([[], ["1/2"], ["0", "1"], ["0", "0", "1"]], ["1/6", "2/3", "0", "1/6"]),
    "Heun3": ([[], ["1/3"], ["0", "2/3"]], ["1/4", "0", "3/4"]),
    "RungeKutta4": (
        [[], ["1/2"], ["0", "1/2"], ["0", "0", "1"]],
        ["1/6", "1/3", "1/3", "1/6"],
    ),
    "RungeKutta3_8": (
        [[], ["1/3"], ["-1/3", "1"], ["1", "-1", "1"]],
        ["1/8", "3/8", "3/8", "1/8"],
    ),
}
ADAPTIVE = ("RungeKutta23", "RungeKutta45", "DOP853")
FIXED_RK = tuple(_T)
RK = FIXED_RK + ADAPTIVE
ALL = tuple(sorted(LMM)) + RK
MULTI = tuple(sorted(LMM))
IMPLICIT = tuple(n for n in MULTI if LMM[n][0] != "AB")
EXPLICIT = tuple(n for n in ALL if n not in IMPLICIT)
FIXED = MULTI + FIXED_RK

ORDER = {
    "Runge2": 2, "Runge3": 3, "Heun3": 3, "RungeKutta4": 4, "RungeKutta3_8": 4,
    "RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8,
}
for _n, (_f, _k) in LMM.items():
    ORDER[_n] = _k

# error estimate order (of the embedded method)
EST_ORDER = {"RungeKutta23": 2, "RungeKutta45": 4, "DOP853": 7}


def _tab(name):
    if name in _T:
        A, B = _T[name]
        n = len(B)
        a = np.zeros((n, n))
        c = np.zeros(n)
        for i, row in enumerate(A):
            for j, v in enumerate(row):
                a[i, j] = float(Fr(v))
            c[i] = float(sum((Fr(v) for v in row), Fr(0)))
        return a, np.array([float(Fr(b)) for b in B]), c
    cls = {"RungeKutta23": rk.RK23, "RungeKutta45": rk.RK45, "DOP853": rk.DOP853}[name]
    s = cls.n_stages
    a = np.zeros((s, s))
    a[:, : cls.A.shape[1]] = cls.A[:s, :s]
    return a, np.asarray(cls.B, float), np.asarray(cls.C[:s], float)


TABLEAU = {n: _tab(n) for n in RK}


def _solve(M, r):
    n = len(M)
    M = [list(map(Fr, row)) + [Fr(b)] for row, b in zip(M, r)]
    for i in range(n):
        p = next(j for j in range(i, n) if M[j][i] != 0)
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for j in range(n):
            if j != i and M[j][i] != 0:
                M[j] = [x - M[j][i] * z for x, z in zip(M[j], M[i])]
    return [row[-1] for row in M]


def lmm_coeffs(family, k):
    """y[n+1] = sum_j a[j] y[n-j] + h sum_j b[j] f[n-j] + h bn f[n+1].

    Newest first. Solved from exactness on monomials around t[n+1] (h = 1):
    the points are s = -1, -2, ... for n, n-1, ..., and s = 0 for n+1.
    """
    s = [Fr(-1 - j) for j in range(k)]

    def p(x, q):
        return Fr(1) if q == 0 else x**q

    def dp(x, q):
        return Fr(0) if q == 0 else q * p(x, q - 1)

    if family == "AB":
        # unknown b_j (k of them): exact for degree 1..k
        M = [[dp(x, q) for x in s] for q in range(1, k + 1)]
        r = [p(Fr(0), q) - p(s[0], q) for q in range(1, k + 1)]
        b = _solve(M, r)
        return [Fr(1)] + [Fr(0)] * (k - 1), b, Fr(0)
    if family == "AM":
        # k unknowns: bn and b_0 .. b_{k-2}
        pts = [Fr(0)] + s[: k - 1]
        M = [[dp(x, q) for x in pts] for q in range(1, k + 1)]
        r = [p(Fr(0), q) - p(s[0], q) for q in range(1, k + 1)]
        b = _solve(M, r)
        return [Fr(1)], (b[1:] or [Fr(0)]), b[0]
    # BDF: unknown a_j (k) and bn: exact for degree 0..k
    M = [[p(x, q) for x in s] + [dp(Fr(0), q)] for q in range(0, k + 1)]
    r = [p(Fr(0), q) for q in range(0, k + 1)]
    x = _solve(M, r)
    return x[:-1], [Fr(0)] * k, x[-1]


LMM_COEF = {
    n: tuple(
        np.array([float(v) for v in part]) if isinstance(part, list) else float(part)
        for part in lmm_coeffs(*LMM[n])
    )
    for n in LMM
}


def hist_len(name):
    """Number of past points the method uses."""
    if name not in LMM:
        return 1
    family, k = LMM[name]
    return max(k - 1, 1) if family == "AM" else k


def start_index(name):
    """Steps already made by the constructor."""
    return hist_len(name) - 1


def stages(name, rhs, t, y, f, h):
    a, b, c = TABLEAU[name]
    K = np.zeros((len(b), y.size))
    K[0] = f
    for i in range(1, len(b)):
        K[i] = rhs(t + c[i] * h, y + h * (a[i, :i] @ K[:i]))
    return K


def rk_step(name, rhs, t, y, f, h):
    K = stages(name, rhs, t, y, f, h)
    return y + h * (TABLEAU[name][1] @ K), K


def lmm_known(name, ys, fs, h):
    """The part of the formula that uses past values; ys, fs newest first."""
    a, b, bn = LMM_COEF[name]
    y = sum(a[j] * ys[j] for j in range(len(a)))
    return y + h * sum(b[j] * fs[j] for j in range(len(b))), bn


def error_norm(name, K, f_new, y, y_new, h, atol, rtol):
    """Scaled error estimate of the embedded pair, and its rounding error."""
    Kx = np.vstack([K, f_new[None]])
    scale = atol + rtol * np.maximum(np.abs(y), np.abs(y_new))

    def rms(x):
        return np.sqrt(np.mean((x / scale) ** 2))

    if name == "DOP853":
        e5 = h * (rk.DOP853.E5 @ Kx)
        e3 = h * (rk.DOP853.E3 @ Kx)
        rnd = 4e-16 * rms(abs(h) * (np.abs(rk.DOP853.E5) @ np.abs(Kx)))
        n5, n3 = rms(e5), rms(e3)
        if n5 == 0:
            return 0.0, rnd
        return n5 / np.sqrt(1 + 0.01 * (n3 / n5) ** 2), rnd * 3
    E = rk.RK23.E if name == "RungeKutta23" else rk.RK45.E
    return rms(h * (E @ Kx)), 4e-16 * rms(abs(h) * (np.abs(E) @ np.abs(Kx)))


def hermite(t, t0, y0, f0, t1, y1, f1):
    h = t1 - t0
    s = (t - t0) / h
    return (
        (1 + 2 * s) * (1 - s) ** 2 * y0
        + s * (1 - s) ** 2 * h * f0
        + s * s * (3 - 2 * s) * y1
        + s * s * (s - 1) * h * f1
    )


def dense(name, rhs, t0, y0, f0, t1, y1, f1):
    """SciPy's dense output over one accepted step of an embedded pair."""
    h = t1 - t0
    K = stages(name, rhs, t0, y0, f0, h)
    Kx = np.vstack([K, f1[None]])
    if name in ("RungeKutta23", "RungeKutta45"):
        cls = rk.RK23 if name == "RungeKutta23" else rk.RK45
        return rk.RkDenseOutput(t0, t1, y0, Kx.T @ cls.P)
    n = dop.N_STAGES
    Ke = np.zeros((dop.N_STAGES_EXTENDED, y0.size))
    Ke[: n + 1] = Kx
    for s in range(n + 1, dop.N_STAGES_EXTENDED):
        dy = (Ke[:s].T @ dop.A[s, :s]) * h
        Ke[s] = rhs(t0 + dop.C[s] * h, y0 + dy)
    F = np.zeros((dop.INTERPOLATOR_POWER, y0.size))
    d = y1 - y0
    F[0] = d
    F[1] = h * Ke[0] - d
    F[2] = 2 * d - h * (f1 + Ke[0])
    F[3:] = h * (dop.D @ Ke)
    return rk.Dop853DenseOutput(t0, t1, y0, F)
