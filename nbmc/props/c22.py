"""C22: implicit steps solve their equation or raise."""

import warnings

import numpy as np

from .. import ref
from ..engine import Hang

PID = "C22"
TECHNIQUE = "exhaustive enumeration of a grid of problems (stiffness x coupling x nonlinearity x magnitude x solvability) on the real implicit solvers, every step of every run checked against the method's equation"
NOTE = (
    "After every completed step the equation of the method (coefficients solved from their defining conditions) is evaluated at the "
    "states the solver itself showed; the distance to its solution, estimated with an exact Jacobian, must be within the root finder's "
    "tolerance. Steps whose equation is solvable from a nearby point must not raise, steps whose equation has no solution must, and a "
    "raising call leaves a completed step. Amplification of the A-stable methods is checked in the norm in which it is a theorem."
)
RULE = "12 implicit solvers x 9 stiffness values from 0 to 1e6 x {decoupled, rotating, shear, chain} x dimensions 1-4; 12 nonlinear and 5 unsolvable problems x magnitudes; step/skip/run/run_events"
ASSUMPTIONS = [
    "the root finders have an absolute tolerance of 1.48e-8: 'within tolerance' is 4e-8 in the distance to the solution plus rounding of the equation",
    "solvable means that the exact Newton iteration from the previous state contracts at once",
]

ASTABLE = ("BackwardEuler", "BDF1", "AdamsMoulton1", "AdamsMoulton2", "BDF2")
STIFF = (0.0, 1e-3, 0.1, 1.0, 10.0, 1e2, 1e3, 1e4, 1e6)
H = 0.1
BUDGET = 400_000


def matrix(kind, dim, z):
    """Matrix of a linear problem, eigenvalues of modulus up to z / H."""
    k = z / H
    A = np.zeros((dim, dim))
    for i in range(dim):
        A[i, i] = -k * (1.0 + i) / dim
    if kind == "rotating" and dim > 1:
        for i in range(0, dim - 1, 2):
            A[i, i] = A[i + 1, i + 1] = -0.25 * k
            A[i, i + 1], A[i + 1, i] = k, -k
    if kind == "shear" and dim > 1:
        for i in range(dim - 1):
            A[i, i + 1] = 0.3 * k
    if kind == "chain":
        # stiff and non-stiff components together
        for i in range(dim):
            A[i, i] = -k if i % 2 == 0 else -1.0
            A[i, (i + 1) % dim] += 0.5 if dim > 1 else 0.0
    return A


def linear(kind, dim, z):
    A = matrix(kind, dim, z)
    return lambda t, y: A @ y, lambda t, y: A


def forced(k):
    def f(t, y):
        return -k * (y - np.cos(t)) - np.sin(t)

    return f, lambda t, y: -k * np.eye(y.size)


def cubic(k):
    return (lambda t, y: -k * y**3), lambda t, y: np.diag(-3 * k * y**2)


def logistic(k):
    return (lambda t, y: k * y * (1.0 - y)), lambda t, y: np.diag(k * (1.0 - 2.0 * y))


def vdp(mu):
    def f(t, y):
        out = np.zeros_like(y)
        out[0] = y[1]
        out[1] = mu * (1 - y[0] ** 2) * y[1] - y[0]
        return out

    def J(t, y):
        return np.array([[0.0, 1.0], [-2 * mu * y[0] * y[1] - 1.0, mu * (1 - y[0] ** 2)]])

    return f, J


def robertson(s):
    def f(t, y):
        out = np.zeros_like(y)
        out[0] = -0.04 * y[0] + 1e4 * s * y[1] * y[2]
        out[2] = 3e7 * s * y[1] ** 2
        out[1] = -out[0] - out[2]
        return out

    def J(t, y):
        a = np.array([-0.04, 1e4 * s * y[2], 1e4 * s * y[1]])
        c = np.array([0.0, 6e7 * s * y[1], 0.0])
        return np.array([a, -a - c, c])

    return f, J


def sinh(k):
    return (lambda t, y: -np.sinh(k * y)), lambda t, y: np.diag(-k * np.cosh(k * y))


def timed(k):
    return (lambda t, y: -k * (1 + np.sin(9 * t)) * y), lambda t, y: -k * (1 + np.sin(9 * t)) * np.eye(y.size)


def growth(k):
    return (lambda t, y: k * y), lambda t, y: k * np.eye(y.size)


# unsolvable
def blowup(c):
    """y - h b (y^2 + c) = K has no real solution for large c."""
    return (lambda t, y: y * y + c), lambda t, y: np.diag(2 * y)


def gate(c):
    """Regular up to t = 1, unsolvable after that."""
    def f(t, y):
        return y * y + (c if t > 1.0 else 0.0) - 0.5 * y

    return f, lambda t, y: np.diag(2 * y - 0.5)


def domain(c):
    """NaN where the solution leads."""
    return (lambda t, y: -c - np.sqrt(y)), lambda t, y: np.diag(-0.5 / np.sqrt(y))


def jump(c):
    """The sign of the right-hand side flips: y - h b f(y) jumps over K."""
    return (lambda t, y: np.where(y > 1.0, -c, c) * 1.0), lambda t, y: np.zeros((y.size, y.size))


def singular(c):
    """f = y / (h b) - ...: the equation does not depend on y."""
    return (lambda t, y: c * y + 1.0), lambda t, y: c * np.eye(y.size)


NONLIN = {
    "forced": (forced, (1.0, 1e3, 1e6), (1, 2, 3)),
    "cubic": (cubic, (1.0, 100.0), (1, 2)),
    "logistic": (logistic, (1.0, 30.0), (1, 3)),
    "vdp": (vdp, (0.5, 5.0, 50.0), (2,)),
    "robertson": (robertson, (1e-3, 1.0), (3,)),
    "sinh": (sinh, (1.0, 3.0), (1, 2)),
    "timed": (timed, (1.0, 1e3, 1e6), (1, 2)),
    "growth": (growth, (0.5, 3.0), (1, 2)),
}
BAD = {
    "blowup": (blowup, (1e3, 1e6), (1, 2)),
    "gate": (gate, (1e3,), (1, 2, 3)),
    "domain": (domain, (50.0,), (1, 2)),
    "jump": (jump, (7.0,), (1, 2)),
}
# The equation of a step is y - hb f(y) = K: with f = (y - g(y)) / hb it reads
# g(y) = K, so that g decides what the root finder meets.
SHAPES = {
    "noroot": (lambda y: y * y + 50.0, lambda y: 2 * y),
    "flat": (lambda y: 0 * y + 3.0, lambda y: 0 * y),
    "clip": (lambda y: np.clip(y, -0.5, 0.5), lambda y: 1.0 * (np.abs(y) < 0.5)),
    "dip": (lambda y: y**3 - 2 * y + 2.0, lambda y: 3 * y * y - 2.0),
    "even": (lambda y: y**4 - y * y - 1.0, lambda y: 4 * y**3 - 2 * y),
    "atan": (lambda y: 5 * np.arctan(y), lambda y: 5 / (1 + y * y)),
    "fade": (lambda y: 2 * np.exp(-y * y), lambda y: -4 * y * np.exp(-y * y)),
    "turn": (lambda y: -0.5 * y, lambda y: 0 * y - 0.5),
    "steep": (lambda y: 1e6 * y, lambda y: 0 * y + 1e6),
    "weak": (lambda y: 1e-3 * y, lambda y: 0 * y + 1e-3),
    "square": (lambda y: y * np.abs(y), lambda y: 2 * np.abs(y)),
    "wave": (lambda y: y + 3 * np.sin(2 * y), lambda y: 1.0 + 6 * np.cos(2 * y)),
    # no root, and so steep that Newton's updates are tiny
    "vee3": (lambda y: 1e3 * np.abs(y) + 50.0, lambda y: 1e3 * np.sign(y)),
    "vee9": (lambda y: 1e9 * np.abs(y) + 50.0, lambda y: 1e9 * np.sign(y)),
    "veeb": (lambda y: 1e9 * np.abs(y) + 5.0, lambda y: 1e9 * np.sign(y)),
    "veec": (lambda y: 1e8 * np.abs(y) + 0.3, lambda y: 1e8 * np.sign(y)),
    "vee11": (lambda y: 1e11 * np.abs(y - 0.25) + 50.0, lambda y: 1e11 * np.sign(y - 0.25)),
    "rift": (lambda y: 1e10 * y + np.where(y > 0.1, 40.0, -40.0) - 1e9, lambda y: 0 * y + 1e10),
    "ledge": (lambda y: np.where(y < 0.3, y, np.where(y < 4.0, 0.3, y - 3.7)), lambda y: 1.0 * ((y < 0.3) | (y >= 4.0))),
}


# Values that g does not take: known there means that no step is possible.
GAPS = {
    "noroot": (-np.inf, 50.0), "clip": (0.5, np.inf), "flat": (3.0, np.inf), "even": (-np.inf, -1.25), "atan": (2.5 * np.pi, np.inf),
    "fade": (-np.inf, 0.0), "vee3": (-np.inf, 50.0), "vee9": (-np.inf, 50.0), "veeb": (-np.inf, 5.0), "veec": (-np.inf, 0.3), "vee11": (-np.inf, 50.0), "rift": (-40.0, 40.0),
}


def shaped(name, sub):
    g, dg = SHAPES[sub]
    hb = SHAPE_H * ref.LMM_COEF[name][2]

    def f(t, y):
        return (y - g(y)) / hb

    def J(t, y):
        return np.diag((1.0 - dg(y)) / hb)

    return f, J


SHAPE_H = 0.125
CALLS = ("step", "steps", "upto", "skip", "run", "events")


def ladder(t, y):
    """One function for the compiled runs: the start time selects the problem."""
    n = y.size
    m = np.floor(t / 1000.0)
    out = np.empty_like(y)
    if t < 0.0:
        for i in range(n):
            out[i] = y[i] * y[i] + 1.0e3
        return out
    k = 10.0 ** (m - 2.0)
    for i in range(n):
        out[i] = -k * y[i] * (1.0 + i) / n - 0.01 * y[i] * y[i] * y[i] + 0.3 * np.sin(t)
        if i + 1 < n:
            out[i] += 0.3 * k * y[i + 1]
    return out


def ladder_J(t, y):
    n = y.size
    if t < 0.0:
        return np.diag(2 * y)
    k = 10.0 ** (np.floor(t / 1000.0) - 2.0)
    A = np.zeros((n, n))
    for i in range(n):
        A[i, i] = -k * (1.0 + i) / n - 0.03 * y[i] ** 2
        if i + 1 < n:
            A[i, i + 1] = 0.3 * k
    return A


def y_init(dim, kind, scale):
    base = np.array({"mixed": [0.8, -1.3, 0.4, 2.1], "pos": [0.9, 0.7, 1.2, 0.4], "rob": [1.0, 0.0, 0.0, 0.0]}[kind][:dim])
    return base * scale


def starter(case):
    if not ref.start_index(case["solver"]):
        return {}
    return {"first_stepper_cls": "ForwardEuler" if case["kind"] in ("bad", "shape") else "BackwardEuler"}


LADDER = {"kind": "ladder", "sub": "ladder", "scale": 1.0, "n": 10}


def jit_groups(tier):
    names = ref.IMPLICIT if tier == "thorough" else ("BackwardEuler", "AdamsMoulton2", "AdamsMoulton3", "AdamsMoulton5", "BDF2", "BDF3", "BDF5", "BDF6")
    return [[dict(LADDER, solver=n, t0=m * 1000.0, dim=d, n=10) for m in range(-1, 8) for d in (1, 2, 3, 5)] for n in names]


def cases(tier, mode):
    out = []
    n = 8 if tier == "quick" else 25
    for name in ref.IMPLICIT:
        for z in STIFF:
            for kind in ("decoupled", "rotating", "shear", "chain"):
                for dim in (1, 2, 3, 4):
                    if dim == 1 and kind in ("rotating", "shear"):
                        continue
                    for scale in (1.0, 1e-6, 1e3, 1e6):
                        out.append({"solver": name, "kind": "linear", "sub": kind, "z": z, "dim": dim, "scale": scale, "n": n})
        for nm, (_, par, dims) in NONLIN.items():
            for p in par:
                for dim in dims:
                    for scale in (1.0, 0.01) if nm in ("robertson", "vdp", "sinh", "logistic") else (1.0, 1e-3, 3.0):
                        out.append({"solver": name, "kind": "nonlin", "sub": nm, "par": p, "dim": dim, "scale": scale, "n": n})
        for nm, (_, par, dims) in BAD.items():
            for p in par:
                for dim in dims:
                    for call in CALLS:
                        out.append({"solver": name, "kind": "bad", "sub": nm, "par": p, "dim": dim, "scale": 1.0, "n": 12, "call": call})
        for sub in SHAPES:
            # (the scalar root finder has its tolerance in y: with these
            # slopes everything is within it)
            for dim in (1, 2, 3) if sub not in ("veeb", "veec", "vee9", "vee11", "rift") else (2, 3):
                for scale in (1.0, 0.1, -1.0, 4.0, 1e3, 0.0):
                    out.append({"solver": name, "kind": "shape", "sub": sub, "dim": dim, "scale": scale, "n": 6})
        for m in range(-1, 8):
            for dim in (1, 2, 3, 5):
                out.append(dict(LADDER, solver=name, t0=m * 1000.0, dim=dim))
        if name in ASTABLE:
            for z in STIFF + (1e-2, 3.0, 30.0, 1e5):
                for kind in ("decoupled", "rotating", "shear0"):
                    for dim in (1, 2, 4):
                        for scale in (1.0, 100.0):
                            out.append({"solver": name, "kind": "stable", "sub": kind, "z": z, "dim": dim, "scale": scale, "n": 40})
    return out


_J = {}


def compiled(f):
    if f not in _J:
        import numba

        _J[f] = numba.njit(f)
    return _J[f]


class Watch:
    def __init__(self, f):
        self.f = f
        self.left = BUDGET

    def __call__(self, t, y):
        self.left -= 1
        if self.left < 0:
            raise Hang()
        return self.f(t, y)


def build(case, f, ctx, y0, t0=0.0, h=H):
    import nbkode

    name = case["solver"]
    w = f if ctx.jit else Watch(f)
    return getattr(nbkode, name)(w, t0, y0, h=h, **starter(case))


def history(sol, f, name, t0, h):
    k = ref.hist_len(name)
    ts = [min(max(t0 + j * h, t0), float(sol.t)) for j in range(k)]
    ys = [np.array(sol.interpolate(t), float) for t in ts[:-1]] + [np.array(sol.y, float)]
    fs = [np.asarray(f(t, y), float) for t, y in zip(ts, ys)]
    return ys[::-1], fs[::-1]


def distance(f, J, t1, y1, known, hb):
    """Distance to the solution of the equation, and its rounding error."""
    f1 = np.asarray(f(t1, y1), float)
    res = y1 - hb * f1 - known
    M = np.eye(y1.size) - hb * J(t1, y1)
    if not np.all(np.isfinite(M)) or np.linalg.cond(M) > 1e12:
        return np.inf, np.linalg.norm(res), 0.0
    d = np.linalg.solve(M, res)
    rnd = 1e-15 * (np.max(np.abs(y1)) + np.max(np.abs(hb * f1)) + np.max(np.abs(known)))
    # a component of f may itself be a cancelling sum: |J| |y|
    rnd += 1e-15 * np.max(np.abs(hb * J(t1, y1)) @ np.abs(y1))
    rnd *= np.linalg.norm(np.linalg.inv(M), 2) + 1.0
    return np.max(np.abs(d)), np.linalg.norm(res), rnd


def solvable(f, J, t1, y, known, hb):
    """The exact Newton iteration contracts at once, far from rounding."""
    prev = None
    for _ in range(12):
        M = np.eye(y.size) - hb * J(t1, y)
        if not np.all(np.isfinite(M)) or np.linalg.cond(M) > 1e9:
            return False
        res = y - hb * f(t1, y) - known
        if not np.all(np.isfinite(res)):
            return False
        noise = 2e-16 * (np.max(np.abs(y)) + np.max(np.abs(hb * J(t1, y)) @ np.abs(y)) + np.max(np.abs(known)))
        if noise * max(1.0, np.linalg.norm(np.linalg.inv(M), 2)) > 1e-9:
            return False
        d = np.linalg.solve(M, res)
        y = y - d
        n = np.linalg.norm(d)
        if n < 1e-12 * (1 + np.linalg.norm(y)):
            return True
        if prev is not None and n > 0.3 * prev:
            return False
        prev = n
    return False


def problem(case):
    dim = case["dim"]
    if case["kind"] == "ladder":
        return ladder, ladder_J, y_init(dim + 0, "mixed", 1.0) if dim < 5 else np.array([0.8, -1.3, 0.4, 2.1, -0.5])
    if case["kind"] in ("linear", "stable"):
        kind = case["sub"]
        if kind == "shear0":
            k = case["z"] / H
            A = np.zeros((dim, dim))
            for i in range(dim):
                A[i, i] = -k
                if i + 1 < dim:
                    # dissipative: the symmetric part is negative definite
                    A[i, i + 1] = 0.8 * k
            return (lambda t, y: A @ y), (lambda t, y: A), y_init(dim, "mixed", case["scale"])
        f, J = linear(kind, dim, case["z"])
        return f, J, y_init(dim, "mixed", case["scale"])
    if case["kind"] == "shape":
        f, J = shaped(case["solver"], case["sub"])
        return f, J, y_init(dim, "mixed", case["scale"])
    mk = (NONLIN if case["kind"] == "nonlin" else BAD)[case["sub"]][0]
    f, J = mk(case["par"])
    kind = {"robertson": "rob", "logistic": "pos", "domain": "pos", "jump": "pos", "gate": "pos"}.get(case["sub"], "mixed")
    return f, J, y_init(dim, kind, case["scale"])


def snapshot(sol):
    return float(sol.t), np.array(sol.y, float), np.array(sol.f, float)


def attempt(call):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return None, call()
        except Exception as e:
            return e, None


RAISES = ("RuntimeError", "LinAlgError", "ZeroDivisionError", "FloatingPointError", "OverflowError", "ValueError")


def run_steps(case, ctx):
    name = case["solver"]
    f, J, y0 = problem(case)
    t0 = case.get("t0", 0.0)
    h = SHAPE_H if case["kind"] == "shape" else H
    err, sol = attempt(lambda: build(case, compiled(f) if ctx.jit else f, ctx, y0, t0, h))
    if err is not None:
        # the start-up takes implicit steps too
        ctx.require(type(err).__name__ in RAISES, "%s: %s", case, err)
        known, b1 = ref.lmm_known("BackwardEuler", [y0], [f(t0, y0)], h)
        if ref.start_index(name) == 0:
            ctx.require(False, "the constructor of %s raised %s", name, err)
        ctx.require(not solvable(f, J, t0 + h, y0, known, h * b1) or case["kind"] not in ("linear", "ladder") or case["scale"] > 1e3, "the start-up of %s raised %s on a solvable problem", name, err)
        ctx.outcome("start-up raised")
        return
    ys, fs = history(sol, f, name, t0, h)
    k = ref.hist_len(name)
    for i in range(case["n"]):
        if case["kind"] == "shape" and not max(np.max(np.abs(v)) for v in (ys if name.startswith("B") else ys + fs)) < 1e5:
            # the history itself is no longer known to the tolerance
            ctx.outcome("wild")
            break
        before = snapshot(sol)
        err, _ = attempt(sol.step)
        after = snapshot(sol)
        t1 = before[0] + h
        known, bn = ref.lmm_known(name, ys, fs, h)
        if case["kind"] == "ladder" and t0 < 0:
            ctx.require(err is not None, "%s solved an equation that has no solution: y=%s", name, after[1])
        if err is not None:
            ctx.require(type(err).__name__ in RAISES, "%s: %s", case, err)
            ctx.require(
                before[0] == after[0] and np.array_equal(before[1], after[1]) and np.array_equal(before[2], after[2], equal_nan=True),
                "%s step %d raised %s and changed the state from %s to %s", name, i + 1, type(err).__name__, before, after,
            )
            ctx.require(not solvable(f, J, t1, before[1], known, h * bn), "%s step %d raised %s on a solvable equation (y=%s)", name, i + 1, err, before[1])
            ctx.outcome("raised " + type(err).__name__)
            ctx.state(name, case["kind"], case["sub"], i, "raised")
            break
        if case["kind"] == "shape" and case["sub"] in GAPS:
            lo, up = GAPS[case["sub"]]
            ctx.require(
                not np.any((known > lo + 1e-3) & (known < up - 1e-3)), "%s step %d solved an equation that has no solution (g(y) = %s): y=%s", name, i + 1, known, after[1]
            )
        t1, y1 = after[0], after[1]
        if not np.all(np.isfinite(y1)) or np.max(np.abs(y1)) > 1e12 and case["kind"] != "shape":
            ctx.require(case["sub"] == "growth" or case["kind"] == "linear" or case["kind"] == "shape" and not np.all(np.isfinite(before[1])) or not np.all(np.isfinite(known)), "%s step %d gave %s", name, i + 1, y1)
            ctx.outcome("overflow")
            break
        d, res, rnd = distance(f, J, t1, y1, known, h * bn)
        ctx.require(
            d <= 4e-8 + rnd or res <= 4e-8,
            "%s step %d: y=%s is %g from the solution of its equation (residual %g)", name, i + 1, y1, d, res,
        )
        ctx.require(np.allclose(after[2], f(t1, y1), rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(after[2])))), "%s: f is not the derivative at the new state", name)
        ys = [y1] + ys[: k - 1]
        fs = [np.asarray(f(t1, y1), float)] + fs[: k - 1]
        ctx.step()
        ctx.outcome("solved")
        ctx.state(name, case["kind"], case["sub"], case["dim"], case.get("z", case.get("par", t0)), case["scale"], i)
    ctx.trace()


def level(t, y):
    return y[0] - 0.5


def run_bad(case, ctx):
    """Calls that meet an equation that has no solution."""
    name = case["solver"]
    f, J, y0 = problem(case)
    h = H
    err, sol = attempt(lambda: build(case, f, ctx, y0, h=h))
    if err is not None:
        ctx.require(type(err).__name__ in RAISES and ref.start_index(name) > 0, "%s: %s", case, err)
        ctx.outcome("start-up raised")
        ctx.trace()
        return
    t_start = float(sol.t)
    # the undisturbed trajectory, up to the step that raises
    twin = build(case, f, ctx, y0, h=h)
    good = [snapshot(twin)]
    for _ in range(case["n"] + 10):
        e, _ = attempt(twin.step)
        if e is not None:
            break
        good.append(snapshot(twin))
    else:
        e = None
    last = good[-1]
    if case["sub"] in ("blowup", "domain") and e is None:
        ctx.require(not np.all(np.isfinite(last[1])) or case["sub"] == "domain", "%s: no step of an unsolvable problem raised", case)
    if case["sub"] == "gate":
        # a real solution only exists while the discriminant allows it
        ctx.require(e is not None and last[0] <= 1.0 + 1e-9, "%s passed the point where its equation has no solution: t=%r", name, last[0])
    call = {
        "step": lambda: sol.step(),
        "steps": lambda: sol.step(n=case["n"] + 10),
        "upto": lambda: sol.step(upto_t=t_start + (case["n"] + 9.5) * h),
        "skip": lambda: sol.skip(n=case["n"] + 10),
        "run": lambda: sol.run([t_start + j * 0.7 * h for j in range(int((case["n"] + 9) / 0.7))]),
        "events": lambda: sol.run_events([t_start + (case["n"] + 8.5) * h], [level]),
    }[case["call"]]
    for rep in range(3):
        before = snapshot(sol)
        err, _ = attempt(call)
        now = snapshot(sol)
        ctx.step()
        if e is not None and case["call"] not in ("step",):
            ctx.require(err is not None, "%s.%s went past an unsolvable step", name, case["call"])
        if err is not None:
            ctx.require(type(err).__name__ in RAISES, "%s: %s", case, err)
            match = [g for g in good if g[0] == now[0]]
            ctx.require(
                len(match) == 1 and np.array_equal(match[0][1], now[1], equal_nan=True) and np.array_equal(match[0][2], now[2], equal_nan=True),
                "%s.%s raised %s and left t=%r, y=%s, which is not a completed step", name, case["call"], type(err).__name__, now[0], now[1],
            )
            ctx.require(now[0] == last[0], "%s.%s raised at t=%r, single steps raise at %r", name, case["call"], now[0], last[0])
        ctx.require(now[0] >= before[0], "time went back")
        ctx.state(name, case["sub"], case["call"], rep, now[0])
        if e is None:
            break
    ctx.outcome("unsolvable" if e is not None else "solvable after all")
    ctx.trace()


def run_stable(case, ctx):
    name = case["solver"]
    f, J, y0 = problem(case)
    sol = build(case, f, ctx, y0)
    y = np.array(sol.y, float)
    slack = 1e-7 * (1 + 0)
    first = np.linalg.norm(y0)
    ctx.require(np.linalg.norm(y) <= first + slack, "the start-up of %s amplifies", name)
    prev = None
    if name == "BDF2":
        prev = np.array(sol.interpolate(max(0.0, float(sol.t) - H)), float)

    def g(a, b):
        return np.linalg.norm(a) ** 2 + np.linalg.norm(2 * a - b) ** 2

    for i in range(case["n"]):
        err, _ = attempt(sol.step)
        if err is not None:
            rnd = case["z"] * case["scale"] * 1e-16
            ctx.require(rnd > 1e-10, "%s step %d raised %s on a stiff decaying problem", name, i + 1, err)
            ctx.outcome("raised")
            break
        y1 = np.array(sol.y, float)
        lim = slack * (1 + first)
        if name == "BDF2":
            ctx.require(g(y1, y) <= g(y, prev) + lim * (1 + first), "BDF2 step %d amplifies: %s, %s, %s (h*stiffness %g)", i + 1, prev, y, y1, case["z"])
            prev = y
        else:
            ctx.require(np.linalg.norm(y1) <= np.linalg.norm(y) + lim, "%s step %d amplifies: %s to %s (h*stiffness %g)", name, i + 1, y, y1, case["z"])
        ctx.step()
        y = y1
        ctx.state(name, case["sub"], case["z"], case["dim"], case["scale"], i)
    ctx.trace()


def run(case, ctx):
    with np.errstate(all="ignore"):
        {"ladder": run_steps, "linear": run_steps, "shape": run_steps, "nonlin": run_steps, "bad": run_bad, "stable": run_stable}[case["kind"]](case, ctx)
