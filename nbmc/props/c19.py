"""C19: parameters and initial values mean the same in every accepted form."""

import itertools
import warnings
from fractions import Fraction

import numpy as np

from .. import configs, ref
from ..engine import Hang

PID = "C19"
TECHNIQUE = "exhaustive enumeration of argument forms (containers x number types x layouts, pairs of arguments) for every solver on the real code, in lock step with the canonical form"
NOTE = (
    "A script of public calls (steps, skip, run with past and unsorted times, events, interpolation) runs on a solver built from "
    "the canonical arguments (parameters written into the right-hand side, float arrays) and on one built from every other form; "
    "all results must agree. Uncompiled for all solvers; compiled for representative solvers and forms, plain and compiled functions."
)
RULE = "26 solvers x {one equation, three equations} x all forms of params (38), params with starters (8) and with events (4), y0 (28), t0 (9), h/first_step (5), t_bound (8), requested times (25), counts and limits (8), events (10), rhs (6); all pairs params x y0 in the thorough tier; 4 sets of values that need all digits x 13 forms"
ASSUMPTIONS = ["values are exactly representable in the narrowest number type used"]

RATE, DRIVE = 0.5, 2.0
BUDGET = 300_000


def baked(t, y):
    return -0.5 * y + 2.0 * np.sin(t)


def with_p(t, y, p):
    return -p[0] * y + p[1] * np.sin(t)


def with_scalar(t, y, p):
    return -p * y + 2.0 * np.sin(t)


def int_baked(t, y):
    return -1.0 * y + 2.0 * np.sin(t)


def int_with_p(t, y, p):
    return -p[0] * y + p[1] * np.sin(t)


def long_with_p(t, y, p):
    s = 0.0
    for i in range(p.size):
        s += p[i]
    return -0.5 * y + 2.0 * np.sin(t) + 0.125 * (s - p[p.size - 1] * 2.0)


def long_baked(t, y):
    return -0.5 * y + 2.0 * np.sin(t) + 0.125 * (-3.0)


def empty_with_p(t, y, p):
    return -0.5 * y + (2.0 + p.size) * np.sin(t)


def zero_baked(t, y):
    return -0.0 * y + 2.0 * np.sin(t)


def zeros_baked(t, y):
    return 0.0 * y + 0.0 * np.sin(t)


def matrix_with_p(t, y, p):
    return -p[0, 0] * y + p[1, 0] * np.sin(t) + 0.125 * p[0, 1]


def matrix_baked(t, y):
    return -0.5 * y + 2.0 * np.sin(t) + 0.125 * -3.0


def strided(a):
    out = np.zeros(2 * len(a), dtype=np.asarray(a).dtype)
    out[::2] = a
    return out[::2]


def reverse(a):
    return np.array(list(reversed(a)), dtype=np.asarray(a).dtype)[::-1]


def readonly(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


class Seq:
    """Only a sequence: what np.asarray can use."""

    def __init__(self, a):
        self.a = list(a)

    def __len__(self):
        return len(self.a)

    def __getitem__(self, i):
        return self.a[i]


class Arr:
    """Only convertible by __array__."""

    def __init__(self, a):
        self.a = np.array(a)

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype) if dtype is not None else self.a


V = {
    "list": list,
    "tuple": tuple,
    "array": np.array,
    "f32": lambda a: np.array(a, dtype=np.float32),
    "f16": lambda a: np.array(a, dtype=np.float16),
    "strided": lambda a: strided(np.array(a)),
    "reversed": lambda a: reverse(np.array(a)),
    "readonly": readonly,
    "swapped": lambda a: np.array(a).astype(">f8"),
    "npscalars": lambda a: [np.float64(x) for x in a],
    "f32scalars": lambda a: tuple(np.float32(x) for x in a),
    "seq": Seq,
    "arr": Arr,
    "column": lambda a: np.array([a, a], dtype=float).T[:, 0],
    "matrix_row": lambda a: np.array([a, a], dtype=float)[1],
}
IV = {
    "intlist": lambda a: [int(x) for x in a],
    "inttuple": lambda a: tuple(int(x) for x in a),
    "i64": lambda a: np.array(a, dtype=np.int64),
    "i32": lambda a: np.array(a, dtype=np.int32),
    "i8strided": lambda a: strided(np.array(a, dtype=np.int8)),
    "mixed": lambda a: [int(a[0])] + [float(x) for x in a[1:]],
}
# forms of params: name -> (rhs with params, baked rhs, value)
PARAMS = {}
for _k, _f in V.items():
    if _k in ("swapped",):
        continue
    PARAMS[_k] = ("with_p", "baked", lambda f=_f: f([RATE, DRIVE]))
for _k, _f in IV.items():
    PARAMS[_k] = ("int_with_p", "int_baked", lambda f=_f: f([1, 2]))
PARAMS["scalar"] = ("with_scalar", "baked", lambda: RATE)
PARAMS["npscalar"] = ("with_scalar", "baked", lambda: np.float64(RATE))
PARAMS["scalar32"] = ("with_scalar", "baked", lambda: np.float32(RATE))
PARAMS["zerod"] = ("with_scalar", "baked", lambda: np.array(RATE))
PARAMS["one"] = ("with_scalar", "baked", lambda: [RATE])
PARAMS["intscalar"] = ("with_scalar", "int_baked", lambda: 1)
PARAMS["long"] = ("long_with_p", "long_baked", lambda: [1.0, 2.0, -3.0, 5.0, -4.0, 4.0])
PARAMS["longstrided"] = ("long_with_p", "long_baked", lambda: strided(np.array([1.0, 2.0, -3.0, 5.0, -4.0, 4.0])))
PARAMS["empty"] = ("empty_with_p", "baked", lambda: [])
PARAMS["emptytuple"] = ("empty_with_p", "baked", lambda: ())
PARAMS["emptyarray"] = ("empty_with_p", "baked", lambda: np.zeros(0))
PARAMS["emptyint"] = ("empty_with_p", "baked", lambda: np.zeros(0, dtype=np.int64))
PARAMS["zero"] = ("with_scalar", "zero_baked", lambda: 0)
PARAMS["false"] = ("with_scalar", "zero_baked", lambda: np.array(0.0))
PARAMS["zeros"] = ("with_p", "zeros_baked", lambda: [0.0, 0.0])
PARAMS["matrix"] = ("matrix_with_p", "matrix_baked", lambda: [[0.5, -3.0], [2.0, 7.0]])
PARAMS["matrixF"] = ("matrix_with_p", "matrix_baked", lambda: np.asfortranarray([[0.5, -3.0], [2.0, 7.0]]))
PARAMS["matrixT"] = ("matrix_with_p", "matrix_baked", lambda: np.array([[0.5, 2.0], [-3.0, 7.0]]).T)

Y0 = dict(V)
Y0.update(IV)
Y_VAL = {1: [1.5], 3: [1.5, -2.25, 0.5]}
Y_INT = {1: [2], 3: [2, -3, 1]}
Y_SCALAR = {
    "float": lambda a: float(a[0]), "npfloat": lambda a: np.float64(a[0]), "f32scalar": lambda a: np.float32(a[0]),
    "zerod": lambda a: np.array(a[0]),
}
Y_ISCALAR = {"int": lambda a: int(a[0]), "npint": lambda a: np.int64(a[0]), "bool": lambda a: True}

NUM = {
    "int": int, "float": float, "f64": np.float64, "f32": np.float32, "i64": np.int64, "zerod": np.array,
    "izerod": lambda x: np.array(int(x)), "fraction": Fraction, "i8": np.int8,
}
T0 = 2.0
TB = 16.0
H = {"float": lambda x: x, "f64": np.float64, "f32": np.float32, "zerod": np.array, "fraction": lambda x: Fraction(x)}
REQ = [2.5, 4.0, 3.0, 4.0]
REQ_INT = [5, 3, 4, 4]
TIMES = {k: V[k] for k in V if k not in ("f16",)}
TIMES.update({k: IV[k] for k in IV})
COUNT = {"int": int, "i64": np.int64, "i32": np.int32, "u8": np.uint8}
EVFORMS = ("list", "tuple", "single", "generator", "plain", "direction_float", "terminal_int", "terminal_np", "lambda", "repeat")
RHS = ("plain", "lambda", "list_result", "method", "kwdefault", "int_zero")


def level(t, y):
    return y[0] - 0.75


def late(t, y):
    return np.sin(3.0 * t) + 0.1 * y[0]


CANON = {}

# no digit of what is given may be lost
VALUES = (
    [1.0 / 3.0, -0.1, 2.0**-40 + 1.0],
    [1e-300, -1e300, 5e-324],
    [2.0**53 - 1.0, -(2.0**31) - 1.0, 2.0**24 + 1.0],
    [np.pi, 1e-9, -1.0000001],
)
EXACT = ("list", "tuple", "array", "strided", "reversed", "readonly", "npscalars", "seq", "arr", "column", "matrix_row", "longdouble", "bigint")


def echo(t, y, p):
    return p + 0.0 * np.sign(y)


def run_exact(case, ctx):
    import nbkode

    vals = VALUES[case["val"]]
    form, name = case["form"], case["solver"]
    if form == "bigint":
        vals = [int(v) for v in VALUES[2]]
        mk = list
    elif form == "longdouble":
        mk = lambda v: np.array(v, dtype=np.longdouble)
    else:
        mk = V[form]
    y0, p = mk(vals), mk(list(reversed(vals)))
    t0 = vals[0] if abs(vals[0]) < 1e10 else 0.1
    kw = {"first_step": 0.1, "max_step": 0.7} if name in ref.ADAPTIVE else {"h": 0.1}
    if name in ref.MULTI:
        kw["first_stepper_cls"] = None
    f = echo
    if form == "longdouble":
        def f(t, y, p):
            return np.asarray(p, float) + 0.0 * np.sign(y)
    s = getattr(nbkode, name)(f, t0, y0, p, t_bound=t0 + 10.1, **kw)
    want = np.array([float(v) for v in vals])
    for what, got, exp in (
        ("the time", s.t, t0), ("the state", s.y, want), ("the derivative", s.f, want[::-1]),
        ("the step size", s.h, 0.1), ("the bound", s.t_bound, t0 + 10.1),
    ):
        ctx.require(bool(np.all(np.asarray(got, float) == exp)), "%s given as %s: %s is %r instead of %r", vals, form, what, got, exp)
    ctx.step()
    ctx.trace()
    ctx.outcome("exact")
    ctx.state(name, form, case["val"], float(s.t))



def variants(arg):
    if arg == "params":
        return list(PARAMS)
    if arg == "y0":
        return list(V) + list(IV)
    if arg == "yscalar":
        return list(Y_SCALAR) + list(Y_ISCALAR)
    if arg == "t0":
        return list(NUM)
    if arg == "bound":
        return [k for k in NUM if k != "fraction"]
    if arg == "h":
        return list(H)
    if arg == "times":
        return list(TIMES) + ["range", "scalar", "iscalar", "npscalar", "zerod"]
    if arg == "count":
        return list(COUNT) + ["limit_" + k for k in ("int", "f32", "i64", "zerod")]
    if arg == "events":
        return list(EVFORMS)
    if arg == "rhs":
        return list(RHS)
    if arg == "pevents":
        return ["list", "strided", "intlist", "scalar"]
    if arg == "starter":
        return list(STARTERS)


STARTERS = {
    "name": lambda nbkode: "RungeKutta4", "class": lambda nbkode: nbkode.RungeKutta3_8, "euler": lambda nbkode: "ForwardEuler",
    "implicit": lambda nbkode: "BackwardEuler", "multi": lambda nbkode: nbkode.AdamsBashforth2, "none": lambda nbkode: None,
    "auto": lambda nbkode: "auto", "adaptive": lambda nbkode: nbkode.RungeKutta23,
}
ARGSET = ("starter", "pevents", "params", "y0", "yscalar", "t0", "bound", "h", "times", "count", "events", "rhs")


def cases(tier, mode):
    out = []
    for name in ref.ALL:
        for arg in ARGSET:
            for v in variants(arg):
                if arg == "starter" and name not in ref.MULTI:
                    continue
                for dim in (1, 3):
                    if arg == "yscalar" and dim != 1:
                        continue
                    out.append({"solver": name, "arg": arg, "form": v, "dim": dim})
        pairs = list(itertools.product(PARAMS, list(V) + list(IV)))
        if tier != "thorough":
            pairs = [p for i, p in enumerate(pairs) if p[0] in ("intlist", "strided", "f32") or p[1] in ("intlist", "strided")]
        for p, y in pairs:
            out.append({"solver": name, "arg": "pair", "form": p, "y0": y, "dim": 3})
        out.append({"solver": name, "arg": "named", "form": "", "dim": 3})
        for form in EXACT:
            for i in range(len(VALUES)):
                out.append({"solver": name, "arg": "exact", "form": form, "dim": 3, "val": i})
    return out


JIT = (
    ("RungeKutta4", "params", ("list", "scalar", "intlist")),
    ("RungeKutta4", "params", ("strided", "i32", "long")),
    ("AdamsBashforth3", "starter", ("name",)),
    ("RungeKutta4", "pevents", ("list",)),
    ("RungeKutta4", "params", ("emptyarray", "zero", "matrixT")),
    ("AdamsMoulton2", "params", ("empty",)),
    ("DOP853", "params", ("emptyarray",)),
    ("BDF2", "params", ("tuple", "intscalar")),
    ("AdamsMoulton1", "params", ("list", "scalar")),
    ("AdamsMoulton3", "params", ("list",)),
    ("AdamsBashforth3", "params", ("array", "readonly")),
    ("RungeKutta45", "params", ("list", "scalar")),
    ("RungeKutta23", "params", ("inttuple",)),
    ("DOP853", "params", ("list",)),
    ("RungeKutta4", "y0", None), ("RungeKutta4", "yscalar", None), ("RungeKutta4", "t0", None), ("RungeKutta4", "times", None),
    ("RungeKutta4", "count", None), ("RungeKutta4", "h", None), ("RungeKutta4", "bound", None),
    ("RungeKutta4", "events", ("list", "tuple", "single", "plain")),
    ("RungeKutta4", "events", ("direction_float", "terminal_int", "terminal_np", "repeat")),
    ("RungeKutta45", "y0", None), ("RungeKutta45", "t0", None), ("RungeKutta45", "count", None), ("RungeKutta45", "h", None),
    ("AdamsMoulton2", "y0", None), ("BDF2", "yscalar", None), ("BDF2", "t0", None), ("BDF2", "times", None),
    ("RungeKutta4", "rhs", ("plain", "lambda")), ("BDF2", "rhs", ("plain",)), ("RungeKutta23", "rhs", ("plain",)),
)


def jit_groups(tier):
    groups = {}
    for name, arg, forms in JIT:
        key = (name, arg in ("params", "starter", "pevents") and (arg, forms), arg == "events" and forms, arg == "rhs")
        g = groups.setdefault(key, [])
        for v in forms or variants(arg):
            for dim in (1,) if arg == "yscalar" else (3,) if tier != "thorough" else (1, 3):
                g.append({"solver": name, "arg": arg, "form": v, "dim": dim})
    gs = sorted(groups.values(), key=lambda g: -len({c["form"] for c in g if c["arg"] in ("params", "rhs")}))
    return gs


_J = {}


def comp(f, ctx, nargs=2):
    """Compiled in compiled mode; guarded against endless loops otherwise."""
    if ctx.jit:
        if f not in _J:
            import numba

            _J[f] = numba.njit(f)
        return _J[f]
    left = [BUDGET]

    if nargs == 3:
        def g(t, y, p):
            left[0] -= 1
            if left[0] < 0:
                raise Hang()
            return f(t, y, p)
    else:
        def g(t, y):
            left[0] -= 1
            if left[0] < 0:
                raise Hang()
            return f(t, y)

    return g


def script(case, ctx, a):
    """Runs the script with arguments a, returns all observations, flat."""
    import nbkode

    out = []

    def put(tag, x):
        if isinstance(x, (list, tuple)):
            out.append((tag + "#", float(len(x))))
            for i, v in enumerate(x):
                put("%s.%d" % (tag, i), v)
        else:
            x = np.asarray(x)
            out.append((tag + " dtype", x.dtype.kind))
            out.append((tag, x.astype(float)))

    name = case["solver"]
    kw = {}
    if name in ref.ADAPTIVE:
        kw.update(first_step=a["h"], max_step=0.5, rtol=1e-4, atol=1e-6)
    else:
        kw["h"] = a["h"]
    if case["arg"] == "starter":
        kw["first_stepper_cls"] = STARTERS[case["form"]](nbkode)
    if a.get("params") is not None:
        kw["params"] = a["params"]
    kw["t_bound"] = a["bound"]
    if case["arg"] == "named":
        s = getattr(nbkode, name)(rhs=a["rhs"], t0=a["t0"], y0=a["y0"], **kw)
    else:
        s = getattr(nbkode, name)(a["rhs"], a["t0"], a["y0"], **kw)

    def state(tag):
        put(tag, [s.t, s.y, s.f])

    state("start")
    put("step", s.step())
    put("steps", s.step(n=a["n"]))
    state("after steps")
    s.skip(n=a["n"])
    state("after skip")
    put("upto", s.step(upto_t=a["limit"]))
    state("after upto")
    put("run", s.run(a["times"]))
    state("after run")
    # the past of a request is the history, which is what the solver has visited
    put("past", s.run([float(s.t)]))
    put("again", s.interpolate(float(s.t)))
    if a.get("events") is not None:
        t = float(s.t)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            put("events", s.run_events([t + 1.0, t + 2.5], a["events"]()))
        state("after events")
    return out


def args_of(case, ctx, canon):
    """The arguments of a case; with canon, their canonical forms."""
    arg, form, dim = case["arg"], case["form"], case["dim"]
    ev = level
    a = {
        "rhs": comp(baked, ctx), "t0": T0, "y0": np.array(Y_VAL[dim]), "h": 0.25, "bound": np.inf,
        "n": 3, "limit": 5.0, "times": np.array([9.5, 12.0, 10.0, 12.0]), "params": None,
    }
    g = globals()
    if arg == "pevents":
        a["events"] = lambda: [comp(level, ctx), comp(late, ctx)]
    if arg in ("params", "pair", "starter", "pevents"):
        fp, fb, val = PARAMS["list" if arg == "starter" else form]
        if canon:
            a["rhs"] = comp(g[fb], ctx)
        else:
            a["rhs"] = comp(g[fp], ctx, 3)
            a["params"] = val()
    if arg in ("y0", "pair"):
        k = form if arg == "y0" else case["y0"]
        if k in IV:
            a["y0"] = np.array(Y_INT[dim], float) if canon else IV[k](Y_INT[dim])
        elif not canon:
            a["y0"] = V[k](Y_VAL[dim])
    if arg == "yscalar":
        if form in Y_ISCALAR:
            v = [1] if form == "bool" else Y_INT[1]
            a["y0"] = np.array(v, float) if canon else Y_ISCALAR[form](v)
        elif not canon:
            a["y0"] = Y_SCALAR[form](Y_VAL[1])
    if arg == "t0" and not canon:
        a["t0"] = NUM[form](T0)
    if arg == "bound":
        a["bound"] = TB if canon else NUM[form](TB)
    if arg == "h" and not canon:
        a["h"] = H[form](0.25)
    if arg == "times":
        if form in V:
            if not canon:
                a["times"] = TIMES[form]([9.5, 12.0, 10.0, 12.0])
        elif form in IV:
            a["times"] = np.array([12, 10, 11, 11], float) if canon else IV[form]([12, 10, 11, 11])
        elif form == "range":
            a["times"] = np.array([9.0, 10.0, 11.0]) if canon else range(9, 12)
        else:
            a["times"] = [11.0] if canon else {"scalar": 11.0, "iscalar": 11, "npscalar": np.float32(11.0), "zerod": np.array(11.0)}[form]
    if arg == "count" and not canon:
        if form.startswith("limit_"):
            a["limit"] = NUM[form[6:]](5.0)
        else:
            a["n"] = COUNT[form](3)
    if arg == "events":
        def mk(direction=None, terminal=None, compiled=True):
            f = None
            if ctx.jit and compiled:
                import numba

                f = numba.njit(ev)
            else:
                def f(t, y):
                    return y[0] - 0.75
            if direction is not None:
                f.direction = direction
            if terminal is not None:
                f.terminal = terminal
            return f

        if canon:
            kw = {
                "direction_float": {"direction": 1}, 
                "terminal_int": {"terminal": True}, "terminal_np": {"terminal": True},
            }.get(form, {})
            k = 2 if form == "repeat" else 1
            a["events"] = lambda: [mk(**kw) for _ in range(k)]
        else:
            one = mk()
            a["events"] = {
                "list": lambda: [one],
                "tuple": lambda: (one,),
                "single": lambda: one,
                "generator": lambda: (e for e in [one]),
                "plain": lambda: [mk(compiled=False)],
                "direction_float": lambda: [mk(direction=0.5)],
                "terminal_int": lambda: [mk(terminal=1)],
                "terminal_np": lambda: [mk(terminal=np.True_)],
                "lambda": lambda: [lambda t, y: y[0] - 0.75],
                "repeat": lambda: [one, one],
            }[form]
    if arg == "rhs" and not canon:
        if form == "plain":
            def a_rhs(t, y):
                return -0.5 * y + 2.0 * np.sin(t)
            a["rhs"] = a_rhs
        elif form == "lambda":
            a["rhs"] = lambda t, y: -0.5 * y + 2.0 * np.sin(t)
        elif form == "list_result":
            # a new array every time, or the same one every time: no difference
            buf = np.zeros(dim)

            def a_rhs(t, y):
                buf[:] = -0.5 * y + 2.0 * np.sin(t)
                return buf.copy()
            a["rhs"] = a_rhs
        elif form == "method":
            class Model:
                k = 0.5

                def rhs(self, t, y):
                    return -self.k * y + 2.0 * np.sin(t)
            a["rhs"] = Model().rhs
        elif form == "kwdefault":
            def a_rhs(t, y, k=0.5):
                return -k * y + 2.0 * np.sin(t)
            a["rhs"] = a_rhs
        elif form == "int_zero":
            def a_rhs(t, y):
                return -0.5 * y + 2 * np.sin(t)
            a["rhs"] = a_rhs
    return a


def key_of(case):
    """Cases with the same canonical arguments share the reference run."""
    arg, form, dim = case["arg"], case["form"], case["dim"]
    k = (case["solver"], dim)
    if arg in ("params", "pair", "pevents"):
        k += (PARAMS[form][1], arg == "pevents")
    if arg == "starter":
        k += ("starter", form)
    if arg in ("y0", "pair"):
        k += ("y", (form if arg == "y0" else case["y0"]) in IV)
    if arg == "yscalar":
        k += ("ys", form in Y_ISCALAR, form == "bool")
    if arg == "bound":
        k += ("bound",)
    if arg == "times":
        k += ("times", "v" if form in V else "iv" if form in IV else "range" if form == "range" else "s")
    if arg == "events":
        k += ("events", form if form in ("direction_float", "terminal_int", "terminal_np", "repeat") else "")
    return k


def run(case, ctx):
    if case["arg"] == "exact":
        run_exact(case, ctx)
        return
    k = key_of(case)
    if k not in CANON:
        if len(CANON) > 60:
            CANON.clear()
        CANON[k] = script(case, ctx, args_of(case, ctx, True))
    exp = CANON[k]
    a = args_of(case, ctx, False)
    got = script(case, ctx, a)
    ctx.require(len(got) == len(exp), "%s given as %s: %d results instead of %d", case["arg"], case["form"], len(got), len(exp))
    for (tag, x), (tag2, e) in zip(got, exp):
        if isinstance(x, str):
            ctx.require(x == e or {x, e} <= {"f"}, "%s given as %s: %s is %s instead of %s", case["arg"], case["form"], tag, x, e)
            continue
        x, e = np.asarray(x), np.asarray(e)
        ctx.require(x.shape == e.shape, "%s given as %s: %s has shape %s instead of %s", case["arg"], case["form"], tag, x.shape, e.shape)
        ctx.require(
            bool(np.all(np.abs(x - e) <= 1e-9 * (1 + np.abs(e)))),
            "%s given as %s: %s is %s instead of %s", case["arg"], case["form"], tag, x, e,
        )
    ctx.step(10)
    ctx.trace()
    ctx.outcome(case["arg"])
    ctx.state(case["solver"], k, case["form"], tuple(np.asarray(got[-1][1], dtype=object).ravel().tolist()) if not isinstance(got[-1][1], str) else 0)
