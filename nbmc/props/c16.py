"""C16: root finders return a root or say they did not."""

import itertools
import warnings

import numpy as np
from scipy import optimize

PID = "C16"
TECHNIQUE = "exhaustive enumeration of a bounded space of calls (functions x starting points/brackets x derivatives x tolerances x iteration limits) on the real root finders, each compared with a reference (SciPy's newton, the exact roots and Jacobians)"
NOTE = (
    "newton is compared with scipy.optimize.newton call by call: value, convergence data, exception type and warning categories; "
    "j_newton with its raising variant. newton_hd must return a point with a small residual or raise, must succeed where an exact-"
    "Jacobian Newton iteration contracts, and must stop after maxiter. bisect is compared with the known sign changes. Both modes."
)
RULE = "16 scalar functions x 13 starts x {secant, secant+x1, Newton, Halley} x 4 tolerances x 4 limits x rtol x full_output x disp; 12 systems x starts x tolerances x limits; 14 functions x all ordered pairs of 15 points x tolerances x limits"
ASSUMPTIONS = [
    "calls whose iterates overflow are skipped: SciPy compares infinities with np.isclose",
    "message texts are not compared",
]

INF = float("inf")


# ---------------------------------------------------------------- functions
def f_quad(x):
    return x**2 - 2 * x - 1


def d_quad(x):
    return 2 * x - 2


def s_quad(x):
    return 2.0 + 0 * x


def f_cube(x):
    return x**3 - 2


def d_cube(x):
    return 3 * x**2


def s_cube(x):
    return 6 * x


def f_exp(x):
    return np.exp(x) - np.cos(x)


def d_exp(x):
    return np.exp(x) + np.sin(x)


def s_exp(x):
    return np.exp(x) + np.cos(x)


def f_noroot(x):
    return x**2 + 1


def d_noroot(x):
    return 2 * x


def s_noroot(x):
    return 2.0 + 0 * x


def f_const(x):
    return 1.0 + 0 * x


def d_const(x):
    return 0 * x


def s_const(x):
    return 0 * x


def f_zero(x):
    return 0 * x


def d_zero(x):
    return 0 * x


def s_zero(x):
    return 0 * x


def f_lin(x):
    return 3 * x - 7


def d_lin(x):
    return 3 + 0 * x


def s_lin(x):
    return 0 * x


def f_cycle(x):
    return x**3 - 2 * x + 2


def d_cycle(x):
    return 3 * x**2 - 2


def s_cycle(x):
    return 6 * x


def f_atan(x):
    return np.arctan(x)


def d_atan(x):
    return 1 / (1 + x * x)


def s_atan(x):
    return -2 * x / (1 + x * x) ** 2


def f_multi(x):
    return (x - 1) ** 4


def d_multi(x):
    return 4 * (x - 1) ** 3


def s_multi(x):
    return 12 * (x - 1) ** 2


def f_big(x):
    return 1e12 * (x - 3.0) * (x + 0.25)


def d_big(x):
    return 1e12 * (2 * x - 2.75)


def s_big(x):
    return 2e12 + 0 * x


def f_small(x):
    return 1e-12 * (x - 3.0) * (x + 0.25)


def d_small(x):
    return 1e-12 * (2 * x - 2.75)


def s_small(x):
    return 2e-12 + 0 * x


def f_step(x):
    return np.sign(x - 0.3) * 1.0


def d_step(x):
    return 0 * x + 1.0


def s_step(x):
    return 0 * x


def f_args(x, a, b):
    return a * x**3 - b


def d_args(x, a, b):
    return 3 * a * x**2


def s_args(x, a, b):
    return 6 * a * x


def f_even(x):
    return x**4 - x**2 - 1


def d_even(x):
    return 4 * x**3 - 2 * x


def s_even(x):
    return 12 * x**2 - 2


def f_sin(x):
    return np.sin(x)


def d_sin(x):
    return np.cos(x)


def s_sin(x):
    return -np.sin(x)


SCALAR = ("quad", "lin", "cube", "exp", "noroot", "const", "zero", "cycle", "atan", "multi", "big", "small", "step", "args", "even", "sin")
ARGS = {"args": (2.0, 5.0)}
STARTS = (0.0, 1.0, 0.5, 3.0, -2.0, 5, 1e-9, 1e6, "c", "l1", "l2", "a3", "n0", "big0")
TOLS = (1.48e-8, 1e-3, 1e-14, 0.5)
LIMITS = (50, 1, 2, 5)


def start(s):
    return {
        "c": 1 + 1j, "l1": [1.0], "l2": [2.0, 3.0], "a3": np.array([0.5, 1.0, -2.0]),
        "n0": np.array(3.0), "big0": np.float32(2.5),
    }.get(s, s)


def fun(name, kind):
    return globals()["%s_%s" % (kind, name)]


_jit = {}


def jfun(f, ctx):
    if not ctx.jit:
        return f
    if f not in _jit:
        import numba

        _jit[f] = numba.njit(f)
    return _jit[f]


# ---------------------------------------------------------------- newton
def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = ("ok", f(*a, **k))
        except Exception as e:
            r = ("exc", type(e).__name__)
    cats = sorted(x.category.__name__ for x in w if issubclass(x.category, RuntimeWarning) and "encountered" not in str(x.message))
    return r, cats


def norm(r):
    if r[0] == "exc":
        return r, ()
    r = r[1]
    if isinstance(r, tuple):
        if hasattr(r[1], "root"):
            q = r[1]
            return ("full", bool(q.converged), q.flag, q.function_calls, q.iterations), (r[0], q.root)
        return ("array",) + tuple(np.asarray(z).tolist() for z in r[1:]), (r[0],)
    return ("value", np.shape(r)), (r,)


def same(a, b, tol):
    ka, va = a
    kb, vb = b
    if ka != kb or len(va) != len(vb):
        return False
    for x, y in zip(va, vb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or np.iscomplexobj(x) != np.iscomplexobj(y):
            return False
        if not np.all(np.abs(x - y) <= 1e-9 * (1 + np.abs(y)) + 1e-3 * tol):
            return False
    return True


class Watch:
    """Counts, and notices iterates that are not finite; optional rounding noise."""

    def __init__(self, f, noise=0.0):
        self.f, self.noise, self.wild = f, noise, False

    def __call__(self, x, *a):
        if not np.all(np.isfinite(x)) or np.any(np.abs(x) > 1e100):
            self.wild = True
        v = self.f(x, *a)
        if not np.all(np.isfinite(v)):
            self.wild = True
        return v * (1 + self.noise) if self.noise else v


def options(name, tier):
    for d, x1, tol, mi, rtol, fo, disp in itertools.product(
        (0, 1, 2), (None, 1.5, 3.0, 0.0), TOLS, LIMITS, (0.0, 1e-6), (False, True), (True, False)
    ):
        if x1 is not None and d:
            continue
        kw = dict(tol=tol, maxiter=mi, rtol=rtol, full_output=fo, disp=disp, args=ARGS.get(name, ()))
        if d > 0:
            kw["fprime"] = fun(name, "d")
        if d > 1:
            kw["fprime2"] = fun(name, "s")
        if x1 is not None:
            kw["x1"] = x1
        yield kw


def run_newton(case, ctx):
    from nbkode.nbcompat.zeros import newton

    name, x0 = case["f"], start(case["x0"])
    f = fun(name, "f")
    for kw in options(name, ctx.tier):
        w = Watch(f)
        exp = call(optimize.newton, w, x0, **kw)
        ctx.step()
        if w.wild:
            ctx.outcome("overflow, skipped")
            continue
        keep = np.array(x0, copy=True)
        got = call(newton, f, x0, **kw)
        ctx.require(np.array_equal(keep, np.asarray(x0)), "newton changed x0")
        ok = got[1] == exp[1] and same(norm(got[0]), norm(exp[0]), kw["tol"])
        if not ok:
            # is it a matter of rounding in the reference?
            for noise in (2.3e-16, -2.3e-16, 1e-15, -1e-15):
                alt = call(optimize.newton, Watch(f, noise), x0, **kw)
                if got[1] == alt[1] and same(norm(got[0]), norm(alt[0]), kw["tol"]):
                    ok = True
                    break
        show = {k: v for k, v in kw.items() if not callable(v)}
        show["derivatives"] = ("fprime" in kw) + ("fprime2" in kw)
        ctx.require(ok, "newton(%s, %r, %s): %s, SciPy %s", name, x0, show, got, exp)
        ctx.state(name, repr(x0), norm(exp[0])[0], sorted(show.items(), key=repr))
        ctx.outcome(exp[0][1] if exp[0][0] == "exc" else "value")
        ctx.trace()
    for bad in (dict(tol=0.0), dict(tol=-1.0), dict(maxiter=0), dict(maxiter=-3)):
        r, _ = call(newton, f, x0, **bad)
        ctx.require(r == ("exc", "ValueError"), "newton with %s: %s", bad, r)
    r, _ = call(newton, f, x0, maxiter=2.5)
    ctx.require(r == ("exc", "TypeError"), "newton with maxiter=2.5: %s", r)


def run_jnewton(case, ctx):
    from nbkode.nbcompat.zeros import j_newton

    name = case["f"]
    f = fun(name, "f")
    jf, jd, js = (jfun(fun(name, k), ctx) for k in "fds")
    args = ARGS.get(name, ())
    d = case["d"]
    for x0, tol, mi, rtol in itertools.product((0.0, 1.0, 0.5, 3.0, -2.0, 1e-9, 1e6, 2.5), TOLS, LIMITS + (3,), (0.0, 1e-6)):
        for x1 in (None, 1.5, 3.0, 0.0) if d == 0 else (None,):
            if x1 is not None and ctx.jit and case["x1"] is False:
                continue
            if x1 is None and ctx.jit and case["x1"] is True:
                continue
            kw = dict(tol=tol, maxiter=mi, rtol=rtol, args=args)
            if x1 is not None:
                kw["x1"] = x1
            kr, kj = dict(kw), dict(kw)
            if d > 0:
                kr["fprime"], kj["fprime"] = fun(name, "d"), jd
            if d > 1:
                kr["fprime2"], kj["fprime2"] = fun(name, "s"), js
            w = Watch(f)
            exp = call(optimize.newton, w, x0, **kr)
            ctx.step()
            if w.wild:
                continue
            if ctx.jit:
                # one signature: positional arguments, all of them
                got = call(
                    j_newton, jf, x0, kj.get("fprime"), args, tol, mi, kj.get("fprime2"), x1, rtol,
                )
            else:
                got = call(j_newton, jf, x0, **kj)
            if got[0] == ("exc", "ZeroDivisionError"):
                got = (("exc", "RuntimeError"), got[1])
            ok = same(norm(got[0]), norm(exp[0]), tol)
            if not ok:
                for noise in (2.3e-16, -2.3e-16, 1e-15, -1e-15):
                    alt = call(optimize.newton, Watch(f, noise), x0, **kr)
                    ok = ok or same(norm(got[0]), norm(alt[0]), tol)
            if not ok and ctx.jit and tol < 1e-12:
                # whether such a tolerance is met is up to the rounding of the compiled function
                if got[0][0] == "exc":
                    ok = got[0][1] == "RuntimeError"
                else:
                    v, slope = f(got[0][1], *args), fun(name, "d")(got[0][1], *args)
                    ok = abs(v) <= 1e-9 * max(abs(slope), 1e-12)
                ctx.outcome("j rounding")
            ctx.require(ok, "j_newton(%s, %r, %s, d=%d): %s, SciPy %s", name, x0, kw, d, got[0], exp[0])
            ctx.state("j", name, x0, tol, mi, rtol, x1, d)
            ctx.outcome("j " + (exp[0][1] if exp[0][0] == "exc" else "value"))
            ctx.trace()


# ---------------------------------------------------------------- newton_hd
def g_lin1(y):
    return 4.0 * y - 2.0


def g_lin2(y):
    out = np.empty_like(y)
    out[0] = 2.0 * y[0] + y[1] - 3.0
    out[1] = y[0] - 3.0 * y[1] + 1.0
    return out


def g_lin3(y):
    out = np.empty_like(y)
    out[0] = 2.0 * y[0] + y[1] - 3.0
    out[1] = y[0] - 3.0 * y[1] + 1.0 * y[2]
    out[2] = 100.0 * y[2] - y[0] - 7.0
    return out


def g_circle(y):
    out = np.empty_like(y)
    out[0] = y[0] ** 2 + y[1] ** 2 - 4.0
    out[1] = y[0] - y[1]
    return out


def g_cube(y):
    return y**3 - 2.0


def g_noroot(y):
    return y**2 + 1.0


def g_singular(y):
    out = np.empty_like(y)
    out[0] = y[0] + y[1] - 1.0
    out[1] = 2.0 * y[0] + 2.0 * y[1] - 2.0
    return out


def g_inconsistent(y):
    out = np.empty_like(y)
    out[0] = y[0] + y[1] - 1.0
    out[1] = y[0] + y[1] + 1.0
    return out


def g_const(y):
    return 0.0 * y + 1.0


def g_zero(y):
    return 0.0 * y


def g_nan(y):
    return np.sqrt(-1.0 - y * y)


def g_steep(y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = 1e8 * (y[i] - 1.0 - i)
    return out


def g_vee(y):
    return 1e9 * np.abs(y) + 1.0


def g_rift(y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = 1e10 * (y[i] - 0.1)
        if y[i] > 0.1:
            out[i] += 40.0
        else:
            out[i] -= 40.0
    return out


def g_implicit(y, h, k, t):
    """The equation of a backward Euler step of a coupled problem."""
    out = np.empty_like(y)
    n = y.size
    for i in range(n):
        out[i] = y[i] - (1.0 + i) - h * (-k * y[i] + 0.5 * y[(i + 1) % n] ** 2 + np.sin(t))
    return out


SYSTEMS = (
    ("lin1", (1,)), ("lin2", (2,)), ("lin3", (3,)), ("circle", (2,)), ("cube", (1, 2, 4)), ("noroot", (1, 2)), ("singular", (2,)),
    ("inconsistent", (2,)), ("const", (1, 2)), ("zero", (1, 2)), ("nan", (1, 2)), ("steep", (1, 2, 5)), ("vee", (1, 2)), ("rift", (1, 3)), ("implicit", (1, 2, 3)),
)
HD_ARGS = {"implicit": [(h, k, t) for h in (0.0, 0.1, 1.0) for k in (0.0, 1.0, 1e4) for t in (0.0, -3.0)]}


def exact_jacobian(g, y, args):
    """Complex step: exact to rounding."""
    n = y.size
    J = np.zeros((n, n))
    for i in range(n):
        z = y.astype(complex)
        z[i] += 1e-30j
        J[:, i] = np.imag(g(z, *args)) / 1e-30
    return J


def contracts(g, y, args, atol):
    """True when Newton's iteration from y is plainly contracting to a root."""
    r = np.linalg.norm(g(y, *args))
    for k in range(12):
        if not np.isfinite(r):
            return False
        if r <= 0.01 * atol:
            return True
        J = exact_jacobian(g, y, args)
        if not np.all(np.isfinite(J)) or np.linalg.cond(J) > 1e6:
            return False
        y = y - np.linalg.solve(J, g(y, *args))
        new = np.linalg.norm(g(y, *args))
        if not new <= 0.5 * r and new > 0.01 * atol:
            return False
        r = new
    return False


def run_hd(case, ctx):
    from nbkode.nbcompat import zeros

    newton_hd = zeros.newton_hd
    jacobian = getattr(zeros, "jacobian", None)  # internal helpers may go

    name, n = case["f"], case["dim"]
    g = fun(name, "g")
    base = jfun(g, ctx)
    calls = [0]
    if ctx.jit:
        jg = base
    else:
        def jg(y, *a):
            calls[0] += 1
            return g(y, *a)

    for args in HD_ARGS.get(name, [()]):
        for s in itertools.product((0.0, 1.0, -0.7, 30.0), repeat=min(n, 2)):
            y0 = np.array([s[i % len(s)] for i in range(n)])
            for atol, mi in itertools.product((1.48e-8, 1e-3, 1e-11), (50, 1, 5, 0)):
                calls[0] = 0
                keep = y0.copy()
                r, _ = call(newton_hd, jg, y0, args, atol, 0.0, mi)
                ctx.step()
                ctx.require(np.array_equal(keep, y0), "newton_hd changed its starting point")
                ctx.require(calls[0] <= 2 * (mi + 2) * (2 * n + 1) + 4, "newton_hd(%s, maxiter=%d) made %d calls", name, mi, calls[0])
                if r[0] == "ok":
                    y = np.asarray(r[1])
                    ctx.require(y.shape == (n,), "newton_hd returned shape %s", y.shape)
                    d = np.linalg.norm(g(y, *args))
                    ctx.require(d <= atol * (1 + 1e-9), "newton_hd(%s, %s, %s, atol=%g) returned %s, residual %g", name, keep, args, atol, y, d)
                    ctx.outcome("hd root")
                else:
                    ctx.require(r[1] in ("RuntimeError", "LinAlgError"), "newton_hd(%s, %s, %s): %s", name, keep, args, r[1])
                    if mi == 50:
                        ctx.require(not contracts(g, keep, args, atol), "newton_hd(%s, %s, %s, atol=%g) raised %s", name, keep, args, atol, r[1])
                    ctx.outcome("hd " + r[1])
                ctx.state("hd", name, n, args, s, atol, mi)
                ctx.trace()
            if name not in ("nan", "vee") and jacobian is not None:
                for scale in (1.0, 1e3, 1e6):
                    y = (y0 + 0.5) * scale
                    J = np.asarray(jacobian(jg, y, args))
                    E = exact_jacobian(g, y, args)
                    size = np.max(np.abs(E)) + np.max(np.abs(g(y, *args))) / max(1.0, scale) + 1e-12
                    ctx.step()
                    ctx.require(J.shape == (n, n) and np.all(np.abs(J - E) <= 1e-3 * size), "jacobian(%s, %s, %s) = %s, exact %s", name, y, args, J.tolist(), E.tolist())


# ---------------------------------------------------------------- bisect
def b_lin(x):
    return 3.0 * x - 1.0


def b_cube(x):
    return x * x * x


def b_neg(x):
    return 0.7 - x


def b_step(x):
    return 1.0 if x > 0.3 else -1.0


def b_down(x):
    return -1e-9 if x > 0.3 else 2.0


def b_tiny(x):
    return 1e-300 * (x - 0.2)


def b_huge(x):
    return 1e300 * (x - 0.2)


def b_sin(x):
    return np.sin(3.0 * x)


def b_square(x):
    return x * x + 0.5


def b_touch(x):
    return (x - 0.5) * (x - 0.5)


def b_const(x):
    return -2.0


def b_flat(x):
    if x < -1.0:
        return -1.0
    if x > 1.0:
        return 1.0
    return 0.0


def b_nan(x):
    return np.nan * x


def b_args(x, a, b):
    return a * x - b


BIS = ("lin", "cube", "neg", "step", "down", "tiny", "huge", "sin", "square", "touch", "const", "flat", "nan", "args")
POINTS = (-2.0, -1.5, -1.0, -0.3, 0.0, 1e-9, 0.2, 0.3, 1.0 / 3.0, 0.5, 0.7, 1.0, 1.5, 3.0, float("nan"))


def run_bisect(case, ctx):
    from nbkode.nbcompat.zeros import bisect

    name = case["f"]
    f = fun(name, "b")
    args = (2.0, 1.0) if name == "args" else ()
    count = [0]
    if ctx.jit:
        jf = jfun(f, ctx)
    else:
        def jf(x, *a):
            count[0] += 1
            return f(x, *a)

    for left, right in itertools.product(POINTS, repeat=2):
        yl, yr = f(left, *args), f(right, *args)
        valid = left < right and (yl == 0 or yr == 0 or yl < 0 < yr or yr < 0 < yl)
        for tol, mi in itertools.product((1.48e-8, 1e-3, 0.0, 1e-14), (50, 1, 2, 7, 200)):
            count[0] = 0
            r, _ = call(bisect, jf, left, right, tol, mi, 0.0, args)
            ctx.step()
            ctx.require(count[0] <= mi + 2, "bisect(%s, maxiter=%d) made %d calls", name, mi, count[0])
            if not valid:
                ctx.require(r == ("exc", "ValueError"), "bisect(%s, %r, %r): %s", name, left, right, r)
                ctx.outcome("bisect refused")
                continue
            ctx.require(r[0] == "ok", "bisect(%s, %r, %r): %s", name, left, right, r)
            x = r[1]
            ctx.require(left <= x <= right, "bisect(%s, %r, %r) = %r", name, left, right, x)
            y = f(x, *args)
            if yl == 0 or yr == 0:
                ctx.require(y == 0, "bisect(%s, %r, %r) = %r, an end is a zero", name, left, right, x)
                ctx.outcome("bisect end")
            else:
                w = (right - left) * 0.5 ** min(mi, 1000) * (1 + 1e-9) + 4e-16 * abs(x) + 5e-324
                a, b = max(left, x - w), min(right, x + w)
                ya, yb = f(a, *args), f(b, *args)
                near = abs(y) <= tol or ya == 0 or yb == 0 or y == 0 or (ya < 0) != (yb < 0)
                ctx.require(near, "bisect(%s, %r, %r, tol=%g, maxiter=%d) = %r: value %g, no sign change within %g", name, left, right, tol, mi, x, y, w)
                ctx.outcome("bisect inside")
            ctx.state("bisect", name, left, right, tol, mi)
            ctx.trace()


# ---------------------------------------------------------------- common
def run_common(case, ctx):
    from nbkode.nbcompat import common

    clip, isclose = (getattr(common, k, None) for k in ("clip", "isclose"))
    if clip is None or isclose is None:
        return

    vals = (-INF, -1e300, -3.0, -1.0, -1e-9, 0.0, 1e-12, 1e-9, 0.5, 1.0, 1.0 + 1e-9, 3.0, 1e300, INF)
    for a, b in itertools.product(vals, repeat=2):
        for atol, rtol in itertools.product((0.0, 1e-9, 1e-3, 1.0), (0.0, 1e-9, 0.5)):
            if abs(a) == INF or abs(b) == INF:
                continue
            ctx.step()
            ctx.require(
                bool(isclose(a, b, atol=atol, rtol=rtol)) == bool(np.isclose(a, b, atol=atol, rtol=rtol)),
                "isclose(%r, %r, atol=%g, rtol=%g)", a, b, atol, rtol,
            )
        for x in vals:
            if a <= b:
                ctx.step()
                ctx.require(clip(x, a, b) == np.clip(x, a, b), "clip(%r, %r, %r) = %r", x, a, b, clip(x, a, b))
    ctx.trace()


# ---------------------------------------------------------------- cases
def cases(tier, mode):
    out = [{"kind": "common"}]
    out += [{"kind": "bisect", "f": f} for f in BIS]
    out += [{"kind": "hd", "f": f, "dim": n} for f, dims in SYSTEMS for n in dims]
    out += [{"kind": "newton", "f": f, "x0": s} for f in SCALAR for s in STARTS]
    out += [{"kind": "jnewton", "f": f, "d": d, "x1": None} for f in SCALAR for d in (0, 1, 2)]
    return out


def jit_groups(tier):
    groups = []
    use = SCALAR if tier == "thorough" else ("quad", "const", "atan", "args", "cycle")
    for f in use:
        groups.append(
            [{"kind": "jnewton", "f": f, "d": d, "x1": False} for d in (0, 1, 2)]
            + [{"kind": "jnewton", "f": f, "d": 0, "x1": True}]
        )
    hd = [{"kind": "hd", "f": f, "dim": n} for f, dims in SYSTEMS for n in dims]
    n = 4
    groups += [hd[i::n] for i in range(n)]
    bis = [{"kind": "bisect", "f": f} for f in BIS if f != "nan"]
    groups += [bis[i::n] for i in range(n)]
    groups.append([{"kind": "common"}] + [{"kind": "newton", "f": f, "x0": s} for f in ("quad", "const", "multi", "cycle") for s in (0.5, "c", "l1", "l2")])
    return groups


def run(case, ctx):
    with np.errstate(all="ignore"):
        {
            "common": run_common, "bisect": run_bisect, "hd": run_hd, "newton": run_newton, "jnewton": run_jnewton,
        }[case["kind"]](case, ctx)
