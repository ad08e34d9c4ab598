"""C21: solutions respect time shifts, relabelling, replication and reflection."""

import itertools
import warnings

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C21"
TECHNIQUE = "exhaustive enumeration of symmetry transformations x call histories on the real code: each history is executed on a problem and on its transformed problem in lock step"
NOTE = (
    "Every history of public calls (with events) is executed on a reference problem and on its image under each element of a set of "
    "time shifts, component permutations, replications, reflections (and, for explicit methods, rescalings of state and time); after "
    "every call all results of the image must be the image of the results. Uncompiled for all solvers, compiled for 9 with a "
    "right-hand side that is itself symmetric, so that the compiled code is the same for all images."
)
RULE = "26 solvers x {exact, inexact/own steps} x dimensions 1-3 x (8 shifts and, with times that stay exact, 3 of up to 2^26, all permutations of 2 and 3 components, 2 and 3 copies, sign changes, 4 scalings) x all histories of 11 calls up to depth 2"
ASSUMPTIONS = [
    "implicit steps are compared to the tolerance of the root finder, own steps of adaptive solvers to 1e-4 (1e-3 for shifts above 100: the times lose digits)",
    "rescaling is only claimed for explicit methods with the absolute tolerance rescaled along (the root finders have absolute tolerances)",
]

OPS = (
    ("step", None, None), ("step", 3, None), ("step", None, 2.37), ("skip", 2, None), ("skip", None, 1.61),
    ("run", [1.37, -0.21, 0.6]), ("run", 0.43), ("interp", -0.37), ("interp", 0.0),
    ("events", [0.71, 2.43], False), ("events", [3.37, 0.43], True),
)

# all times exactly representable after a large shift
LATE = (
    ("step", 2, None), ("skip", None, 1.5), ("run", [1.0625, -0.0625, 0.9375]), ("interp", -0.9375), ("interp", -0.0625),
    ("events", [0.5, 2.9375], False), ("events", [3.0625, 0.25], True),
)
FAR = (2.0**26, -(2.0**26), 2.0**20)


def transforms(name, dim):
    out = [("shift", s) for s in (0.5, -1.5, 64.0, -512.25, 3.0, -2.0, 1.0, 1024.0)]
    out.append(("negate", 0))
    for p in itertools.permutations(range(dim)):
        if list(p) != list(range(dim)):
            out.append(("permute", list(p)))
    out += [("replicate", 2), ("replicate", 3)]
    out.append(("interleave", 2))
    out.append(("shift negate permute replicate", -3.25))
    if name in ref.EXPLICIT:
        out += [("scale", 2.0), ("scale", 2.0**-8), ("scale", -(2.0**12)), ("stretch", 2.0), ("stretch", 0.125)]
    return out


class T:
    """A transformation: maps of times, states, right-hand sides and events."""

    def __init__(self, spec, dim):
        kind, v = spec
        self.shift, self.sign, self.k = 0.0, 1.0, 1.0
        self.ix = list(range(dim))  # component i of the image is component ix[i]
        if kind.startswith("shift"):
            self.shift = v
        if kind == "negate":
            self.sign = -1.0
        if kind == "permute":
            self.ix = list(v)
        if kind == "replicate":
            self.ix = list(range(dim)) * v
        if kind == "interleave":
            self.ix = [i for i in range(dim) for _ in range(v)]
        if kind == "scale":
            self.sign = v
        if kind == "stretch":
            self.k = v
        if kind == "shift negate permute replicate":
            self.sign = -1.0
            self.ix = list(reversed(range(dim))) * 2
        # for every original component one of its images
        self.back = [self.ix.index(i) for i in range(dim)]
        self.ix, self.back = np.array(self.ix), np.array(self.back)

    def t(self, t):
        return np.asarray(t, float) * self.k + self.shift

    def y(self, y):
        y = np.asarray(y, float)
        return self.sign * y[..., self.ix] if y.size else y

    def rhs(self, f):
        def g(t, y):
            return self.sign / self.k * np.asarray(f((t - self.shift) / self.k, y[self.back] / self.sign))[self.ix]

        return g

    def event(self, e):
        def g(t, y):
            return e((t - self.shift) / self.k, y[self.back] / self.sign)

        return g


def ev_level(t, y):
    return y[0] - 0.45 + 0.1 * np.sin(t)


def ev_pair(t, y):
    return y[y.size - 1] + 0.6 * np.cos(1.7 * t)


def odd(t, y):
    """Equivariant under permutation, replication and negation; autonomous."""
    m = 0.0
    for i in range(y.size):
        m += y[i]
    m = m / y.size
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -0.7 * y[i] - 0.1 * y[i] * y[i] * y[i] + 0.4 * m
    return out


def cases(tier, mode):
    out = []
    n = len(OPS)
    hist = [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
    if tier == "thorough":
        hist += list(itertools.product((0, 2, 4, 5, 7, 9, 10), repeat=3))
    for name in ref.ALL:
        cfgs = [configs.dyadic(name), configs.free(name)]
        if name in ref.ADAPTIVE:
            cfgs.append(configs.free(name, aprob="U"))
        for c in cfgs:
            for dim in (1, 2, 3):
                c2 = dict(c, dim=dim)
                for j, tr in enumerate(transforms(name, dim)):
                    # quick: the histories of depth 2 are spread over the configurations
                    for k, h in enumerate(hist):
                        if tier == "quick" and len(h) > 1 and (k + j + dim) % 11:
                            continue
                        c3 = dict(c2, tr=list(tr), ops=[OPS[i] for i in h])
                        if name in ref.MULTI and tr[0] in ("scale", "stretch"):
                            # the default starting method is adaptive: it has absolute tolerances
                            c3["first"] = "RungeKutta4"
                        out.append(c3)
        for dim in (1, 2):
            for v in FAR:
                for h in [(o,) for o in LATE] + [((k, n, u), o) for k, n, u in LATE[:2] for o in LATE] + list(itertools.product(LATE, repeat=2) if tier == "thorough" else ()):
                    out.append(dict(cfgs[0], dim=dim, tr=["shift", v], ops=list(h), first="RungeKutta4"))
    out.sort(key=lambda c: len(c["ops"]))
    return out


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS + ("BackwardEuler",)
    out = []
    n = len(OPS) - 2
    hist = [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
    for name in names:
        g = []
        for c in (configs.dyadic(name), configs.free(name)):
            for dim in (1, 2, 3):
                for tr in transforms(name, dim):
                    if tr[0] in ("scale", "stretch"):
                        continue
                    for k, h in enumerate(hist):
                        if len(h) > 1 and (k + dim) % 9:
                            continue
                        g.append(dict(c, prob="odd", dim=dim, tr=list(tr), ops=[OPS[i] for i in h]))
        out.append(g)
    return out


_J = {}


def rhs_of(case, ctx):
    if case["prob"] == "odd":
        if ctx.jit:
            if "odd" not in _J:
                import numba

                _J["odd"] = numba.njit(odd)
            return _J["odd"]
        return odd
    return problems.PROBLEMS[case["prob"]]


def call(sol, op, t, h, tr, evs):
    """Executes op with times given on the time axis of the reference."""
    kind = op[0]
    if kind in ("step", "skip"):
        kw = {}
        if op[1] is not None:
            kw["n"] = op[1]
        if op[2] is not None:
            kw["upto_t"] = float(tr.t(t + op[2] * h))
        r = getattr(sol, kind)(**kw)
        return [("t", r[0]), ("y", r[1])] if kind == "step" else []
    if kind == "run":
        q = op[1]
        r = sol.run(tr.t([t + x * h for x in q]) if isinstance(q, list) else float(tr.t(t + q * h)))
        return [("t", r[0]), ("y", r[1])]
    if kind == "interp":
        # the current time itself only where shifted times are exact
        x = op[1] if op[1] or h == 0.25 else -0.01
        return [("y", sol.interpolate(float(tr.t(t + x * h))))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = sol.run_events(tr.t([t + x * h for x in op[1]]), evs)
    out = [("t", r[0]), ("y", r[1])]
    for te, ye in zip(r[2], r[3]):
        out += [("t", te), ("y", ye)]
    return out


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", type(e).__name__)


def run(case, ctx):
    dim = case["dim"]
    tr, one = T(case["tr"], dim), T(("", 0), dim)
    f = rhs_of(case, ctx)
    y0 = problems.y0_of(dim)
    name = case["solver"]
    own = name in ref.ADAPTIVE and "first_step" not in case.get("kw", {})
    base = dict(case, _rhs=problems.guard(f) if not ctx.jit else f, _y0=y0)
    image = dict(base, t0=float(tr.t(case["t0"])), _y0=tr.y(y0))
    if not ctx.jit:
        image["_rhs"] = problems.guard(tr.rhs(f))
    if "kw" in case:
        kw = dict(case["kw"])
        kw["atol"] = kw["atol"] * abs(tr.sign)
        for k in ("first_step", "max_step"):
            if k in kw:
                kw[k] = kw[k] * tr.k
        if own and tr.k != 1.0:
            # the initial step selection has absolute limits: give the first step
            kw["first_step"] = 0.125 * tr.k
            base["kw"] = dict(case["kw"], first_step=0.125)
        image["kw"] = kw
    image["h"] = case["h"] * tr.k
    a, b = lockstep.build(base, ctx.mode), lockstep.build(image, ctx.mode)

    if own:
        rt = 1e-3 if abs(tr.shift) > 100 else 1e-4
    elif name in ref.IMPLICIT:
        rt = 3e-7
    else:
        rt = 1e-9
    if abs(tr.shift) > 1e5:
        # spacing of the times
        rt = max(rt, 32 * np.spacing(abs(tr.shift)))
    size = 1.0 + np.max(np.abs(y0))

    def compare(what, kind, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.size == 0 and y.size == 0:
            return
        e = tr.t(x) if kind == "t" else tr.y(x)
        if kind == "t":
            lim = rt * abs(tr.k) + 1e-12 * (1 + abs(tr.shift))
        else:
            lim = rt * size * abs(tr.sign)
            lim = lim / (min(1.0, tr.k) if kind == "f" else 1.0) * (100.0 if kind == "f" else 1.0)
        ok = e.shape == y.shape and bool(np.all((np.abs(e - y) <= lim) | (e == y)))
        ctx.require(ok, "%s under %s, %s: %s is %s, expected %s", name, case["tr"], case["ops"], what, y.tolist(), e.tolist())

    def state(n):
        compare("t after %d calls" % n, "t", a.t, b.t)
        compare("y after %d calls" % n, "y", a.y, b.y)
        if tr.k == 1.0:
            compare("f after %d calls" % n, "f", a.f, b.f)

    h = float(a.h)
    state(0)
    for i, op in enumerate(case["ops"]):
        t = float(a.t)
        evs, evs2 = None, None
        if op[0] == "events":
            e1, e2 = ev_level, ev_pair
            evs = [one.event(e1), one.event(e2)]
            evs2 = [tr.event(e1), tr.event(e2)]
            if op[2]:
                evs[1].terminal = evs2[1].terminal = True
        ra = attempt(lambda: call(a, op, t, h, one, evs))
        rb = attempt(lambda: call(b, op, t, h, tr, evs2))
        ctx.step(2)
        ctx.require(ra[0] == rb[0] and (ra[0] == "ok" or ra[1] == rb[1]), "%s under %s, %s: %s, reference %s", name, case["tr"], case["ops"], rb, ra)
        if ra[0] == "ok":
            ctx.require(len(ra[1]) == len(rb[1]), "%s under %s: number of results", name, case["tr"])
            for (kind, x), (_, y) in zip(ra[1], rb[1]):
                compare("%s of call %d" % (kind, i + 1), kind, x, y)
        else:
            ctx.outcome(ra[1])
        state(i + 1)
    ctx.state(name, case["prob"], dim, case["h"], tuple(map(str, case["tr"])), np.round(b.y, 9).tolist())
    ctx.outcome(case["tr"][0])
    ctx.trace()
