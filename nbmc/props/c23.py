"""C23: a method given only by its coefficients integrates with them."""

import itertools

import numpy as np

from .. import lockstep, problems, ref

PID = "C23"
TECHNIQUE = "exhaustive enumeration of a bounded space of methods (all coefficient tables over small grids) run on the real solver machinery, in lock step with a model that evaluates the textbook formula"
NOTE = (
    "Each table becomes a subclass of the public bases (explicit Runge-Kutta, embedded pair with and without reuse of the last "
    "stage, explicit and implicit multistep). A model computes the trajectory (start-up, stages, embedded error, step-size "
    "control, implicit equation) from the table alone; every call of a mixed history must agree with it. The catalogue must "
    "describe the class by its coefficients. Uncompiled; one class of each kind compiled."
)
RULE = "all explicit tableaux with 1-3 stages over grids of nodes, weights and entries, 4-stage ones over a coarser grid; embedded pairs x error weights x options; explicit and implicit multistep with 1-4 steps over grids; x histories of step/skip/run/interpolate/bound"
ASSUMPTIONS = [
    "A and B of a multistep method have the same length (as for every method of the package)",
    "steps whose error norm is within rounding of 1 are not predicted",
]

H = 0.125
_n = [0]


def fresh():
    _n[0] += 1
    return "UserDefined%d" % _n[0]


# ------------------------------------------------------------------- tables
def erk_tables(tier):
    out = []
    for b in (1.0, 0.5, 0.0):
        out.append(([[0.0]], [b], [0.0]))
    g = (0.0, 0.5, 1.0, -0.25)
    w = (0.0, 1.0, 0.25, -1.0)
    for a, c, b in itertools.product(g, (0.0, 0.5, 1.0), itertools.product(w, repeat=2)):
        out.append(([[0, 0], [a, 0]], list(b), [0.0, c]))
    for a21, a31, a32 in itertools.product((0.5, 1.0, 0.0), (0.0, -1.0, 0.25), (0.0, 2.0, 0.75)):
        for b in itertools.product((0.0, 0.5, -1.0), repeat=3):
            for c in ((0.5, 1.0), (1.0, 0.5)) if tier == "thorough" or sum(b) >= 0 else ((0.5, 0.75),):
                out.append(([[0, 0, 0], [a21, 0, 0], [a31, a32, 0]], list(b), [0.0, c[0], c[1]]))
    for low in itertools.product((0.0, 0.5, -1.0), repeat=6) if tier == "thorough" else itertools.product((0.0, 0.5), repeat=6):
        A = np.zeros((4, 4))
        A[np.tril_indices(4, -1)] = low
        out.append((A.tolist(), [0.125, 0.375, 0.25, 0.25], [0.0, 0.5, 0.25, 1.0]))
    return out


def pair_tables(tier):
    out = []
    bs = ((1.0, 0.0), (0.5, 0.5), (0.25, 0.75), (0.0, 1.0))
    for a, c in ((1.0, 1.0), (0.5, 0.5), (0.75, 0.5)):
        for b, b2 in itertools.permutations(bs, 2):
            out.append(([[0, 0], [a, 0]], list(b), list(b2), [0.0, c]))
    b3 = ((1 / 6, 1 / 6, 2 / 3), (0.5, 0.5, 0.0), (0.0, 0.0, 1.0), (0.25, 0.0, 0.75))
    for b, b2 in itertools.permutations(b3, 2):
        out.append(([[0, 0, 0], [1.0, 0, 0], [0.25, 0.25, 0]], list(b), list(b2), [0.0, 1.0, 0.5]))
    return out


def fsal_tables(tier):
    out = []
    last = (0.125, -0.25, 0.0)
    for A, b, b2, c in pair_tables(tier):
        for z in last:
            out.append((A, b, [x - z / len(b2) for x in b2] + [z], c))
    return out


OPTS = (
    {"rtol": 1e-3, "atol": 1e-5, "first_step": 0.2},
    {"rtol": 1e-2, "atol": 1e-2, "first_step": 0.125, "max_step": 0.125},
    {"rtol": 1e-4, "atol": 1e-6, "first_step": 0.5, "min_factor": 0.5, "max_factor": 1.5, "safety_factor": 0.8},
    {"rtol": 1e-3, "atol": 1e-4, "first_step": 0.1, "min_step": 1e-3, "max_step": 0.3},
)


def lmm_tables(tier, implicit):
    """A and B oldest first."""
    out = []
    bn = (0.5, 1.0, 0.125) if implicit else (0.0,)
    for k in (1, 2, 3, 4):
        ga = {1: (-1.0, -0.5), 2: (-1.0, 0.0, 0.25), 3: (-1.0, 0.0, 0.25), 4: (-0.5, 0.0) if tier == "quick" else (-0.5, 0.0, 0.25)}[k]
        gb = {1: (1.0, 0.0, 0.5), 2: (1.5, -0.5, 0.0), 3: (0.75, 0.0), 4: (0.5, 0.0)}[k]
        for A, B, c in itertools.product(itertools.product(ga, repeat=k), itertools.product(gb, repeat=k), bn):
            if not any(A):
                continue
            out.append((list(A), list(B), c))
    return out


STARTS = ("RungeKutta4", "ForwardEuler", "auto")


def cases(tier, mode):
    out = []
    for i, t in enumerate(erk_tables(tier)):
        out.append({"kind": "erk", "tab": t, "dim": 1 + i % 3, "t0": (0.5, -1.0, 0.0)[i % 3]})
    for kind, tabs in (("pair", pair_tables(tier)), ("fsal", fsal_tables(tier))):
        for i, t in enumerate(tabs):
            for o in range(len(OPTS)):
                for p in ("U", "pulse", "swing"):
                    out.append({"kind": kind, "tab": t, "dim": 2 if p == "swing" else 1 + (i + o) % 2, "t0": 0.25, "opt": o, "prob": p, "q": 1 + (i + o) % 3})
    for kind in ("ab", "am"):
        for i, t in enumerate(lmm_tables(tier, kind == "am")):
            if kind == "am" and tier == "quick" and i % 3 and len(t[0]) > 2:
                continue
            out.append({"kind": kind, "tab": t, "dim": 1 + i % 3, "t0": (0.5, -1.0, 0.0)[i % 3], "first": STARTS[i % (3 if i % 5 == 0 else 2)]})
    # a history longer than needed, and B shorter than A
    for c in [c for c in out if c["kind"] in ("erk", "ab", "am")][:: 2 if tier == "thorough" else 7] + [c for c in out if c["kind"] in ("pair", "fsal")][::13]:
        for extra in (1, 2, 5):
            k = len(c["tab"][0]) if c["kind"] in ("ab", "am") else 2
            out.append(dict(c, len=max(k, 2) + extra))
    for c in [c for c in out if c["kind"] in ("ab", "am") and "len" not in c and len(c["tab"][0]) > 1][:: 1 if tier == "thorough" else 3]:
        for cut in range(1, len(c["tab"][0])):
            A, B, bn = c["tab"]
            out.append(dict(c, tab=[A, B[cut:], bn]))
            if cut == 1:
                out.append(dict(c, tab=[A, B[cut:], bn], len=len(A) + 2))
    # number types of the implicit coefficient
    for c in [c for c in out if c["kind"] == "am" and "len" not in c and len(c["tab"][0]) == len(c["tab"][1])][::9]:
        for bn in ("np", "np32", "zerod", "npint"):
            out.append(dict(c, bn=bn))
            if bn != "np32":
                out.append(dict(c, bn=bn, tab=[c["tab"][0], c["tab"][1], 0.0]))
    # classes that share their arrays, and classes that inherit them
    for i, c in enumerate([c for c in out if "len" not in c and "bn" not in c][:: 2 if tier == "thorough" else 11]):
        for share in ("again", "first", "sub", "base"):
            out.append(dict(c, share=share))
    for name in ref.ALL:
        for dim in (1, 2):
            for order in ("before", "after", "two"):
                out.append({"kind": "child", "solver": name, "dim": dim, "t0": 0.5, "order": order})
    for q in range(6):
        out.append({"kind": "fehlberg", "order": q, "dim": 1, "t0": 0.0})
    return out


def jit_groups(tier):
    first = lambda kind, n=3: [c for c in cases("quick", "jit") if c["kind"] == kind and c["dim"] == 2 and (kind not in ("ab", "am") or len(c["tab"][0]) == 3)][5 : 5 + n]
    g = [first(k, 2 if tier == "quick" else 6) for k in ("erk", "pair", "fsal", "ab", "am")]
    return [x for x in g if x]


# -------------------------------------------------------------------- model
class Run:
    """The trajectory that the table alone prescribes: ts, ys, fs."""

    def __init__(self, case, rhs):
        self.case, self.rhs = case, rhs
        self.kind = case["kind"]
        self.ts, self.ys, self.fs = [], [], []
        self.h = H

    def add(self, t, y):
        self.ts.append(t)
        self.ys.append(np.array(y, float))
        self.fs.append(np.asarray(self.rhs(t, y), float))

    def stages(self, h):
        A, C = self.case["tab"][0], self.case["tab"][-1]
        t, y = self.ts[-1], self.ys[-1]
        K = [self.fs[-1]]
        for i in range(1, len(C)):
            K.append(np.asarray(self.rhs(t + C[i] * h, y + h * sum(A[i][j] * K[j] for j in range(i))), float))
        return K

    def step(self):
        """True, False (raises) or None (cannot be predicted)."""
        tab = self.case["tab"]
        t, y = self.ts[-1], self.ys[-1]
        if self.kind == "erk":
            K = self.stages(H)
            self.add(t + H, y + H * sum(b * k for b, k in zip(tab[1], K)))
            return True
        if self.kind == "ab":
            k = len(tab[0])
            new = -sum(a * v for a, v in zip(tab[0], self.ys[-k:])) + H * sum(b * v for b, v in zip(tab[1], self.fs[-len(tab[1]) :]))
            self.add(t + H, new)
            return True
        o = dict(min_step=1e-15, max_step=np.inf, min_factor=0.2, max_factor=10.0, safety_factor=0.9)
        o.update(OPTS[self.case["opt"]])
        for _ in range(60):
            h = self.h
            K = self.stages(h)
            new = y + h * sum(b * k for b, k in zip(tab[1], K))
            K2 = K + [np.asarray(self.rhs(t + h, new), float)]
            full = list(tab[1]) + [0.0]
            err = h * sum((b - b2) * k for b, b2, k in zip(full, tab[2] + ([0.0] if self.kind == "pair" else []), K2))
            scale = o["atol"] + o["rtol"] * np.maximum(np.abs(y), np.abs(new))
            n = float(np.sqrt(np.mean((err / scale) ** 2)))
            # rounding of the error estimate itself
            rnd = 1e-15 * h * max(np.max(np.abs(k)) for k in K2) / np.min(scale)
            if abs(n - 1) < 1e-6 + rnd or (n < 1e3 * rnd and n != 0):
                return None
            f = o["max_factor"] if n == 0 else min(o["max_factor"], max(o["min_factor"], o["safety_factor"] / n ** (1 / (self.case["q"] + 1))))
            want = h * f
            self.h = min(max(want, o["min_step"]), o["max_step"])
            if n < 1:
                self.add(t + h, new)
                return True
            if want < o["min_step"]:
                return False
        return None

    def at(self, t):
        j = max(i for i in range(len(self.ts)) if self.ts[i] <= t)
        if self.ts[j] == t:
            return self.ys[j]
        return ref.hermite(t, self.ts[j], self.ys[j], self.fs[j], self.ts[j + 1], self.ys[j + 1], self.fs[j + 1])


def make(case):
    from nbkode.multistep.core import ExplicitMultistep, ImplicitMultistep
    from nbkode.runge_kutta.core import AdaptiveRungeKutta
    from nbkode.runge_kutta.explicit import ERK, FSAL

    kind, tab = case["kind"], case["tab"]
    if "share" in case:
        return make_shared(case)
    a = lambda x: np.array(x, float)
    more = {"LEN_HISTORY": case["len"]} if "len" in case else {}
    if kind == "erk":
        return type(ERK)(fresh(), (ERK,), {"A": a(tab[0]), "B": a(tab[1]), "C": a(tab[2]), **more})
    if kind in ("pair", "fsal"):
        ns = {**more, "A": a(tab[0]), "B": a(tab[1]), "B2": a(tab[2]), "C": a(tab[3]), "error_estimator_order": case["q"]}
        return type(ERK)(fresh(), (AdaptiveRungeKutta, ERK) if kind == "pair" else (FSAL,), ns)
    base = ExplicitMultistep if kind == "ab" else ImplicitMultistep
    ns = {"A": a(tab[0]), "B": a(tab[1]), **more}
    if kind == "am":
        ns["Bn"] = {"py": float, "np": np.float64, "np32": np.float32, "zerod": np.array, "npint": lambda x: np.int64(x) if x == int(x) else np.float64(x)}[case.get("bn", "py")](tab[2])
    return type(base)(fresh(), (base,), ns)


TABLES = ("A", "B", "B2", "C")


def make_shared(case):
    """Two classes with the same arrays; the one to look at."""
    one = make({k: v for k, v in case.items() if k != "share"})
    own = {k: v for k, v in vars(one).items() if k in TABLES + ("Bn", "error_estimator_order")}
    if case["share"] in ("again", "first"):
        two = type(one)(fresh(), one.__bases__, dict(own))
    else:
        two = type(one)(fresh(), (one,), {})
    return two if case["share"] in ("again", "sub") else one


def run_child(case, ctx):
    """A subclass of a solver of the package that changes nothing."""
    import nbkode

    base = getattr(nbkode, case["solver"])
    f = problems.get("U", ctx.mode)
    kw = {"h": H} if case["solver"] in ref.FIXED else {"rtol": 1e-4, "atol": 1e-6}

    def story(cls):
        s = cls(f, case["t0"], problems.y0_of(case["dim"]), **kw)
        t = float(s.t)
        out = [s.t, s.y, s.f, s.h]
        out += list(s.step(n=4)) + [s.h]
        t = float(s.t)
        out += list(s.run([t + 1.0, t + 1.55])) + [s.interpolate(float(s.t)), s.f, s.h]
        return [np.array(x, float) for x in out]

    tables = {k: np.array(getattr(base, k)) for k in TABLES if hasattr(base, k)}
    if case["order"] != "after":
        want = story(base)
    kids = [type(base)(fresh(), (base,), {"ALIASES": ()}) for _ in range(2 if case["order"] == "two" else 1)]
    got = [story(k) for k in kids]
    if case["order"] == "after":
        want = story(base)
    else:
        got.append(story(base))
    for g in got:
        ctx.require(
            all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(g, want)), "a subclass of %s gives %s instead of %s", case["solver"], g, want
        )
        ctx.step(3)
    for k, v in tables.items():
        ctx.require(np.array_equal(v, getattr(base, k)) and np.array_equal(v, getattr(kids[0], k)), "table %s of %s was changed to %s", k, case["solver"], getattr(base, k))
    for kid in kids:
        ctx.require((kid.IMPLICIT, kid.FIXED_STEP, kid.GROUP) == (base.IMPLICIT, base.FIXED_STEP, base.GROUP), "a subclass of %s is another kind of solver", case["solver"])
        ctx.require(nbkode.get_solver(kid.__name__) is kid and nbkode.get_solver(case["solver"]) is base, "the catalogue confuses %s with a subclass", case["solver"])
    ctx.state("child", case["solver"], case["dim"], case["order"])
    ctx.trace()


_cls = {}


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b))) if b.size else True))


def run_fehlberg(case, ctx):
    """The pair the package keeps for subclassing has the order it claims."""
    from nbkode.runge_kutta.core import AdaptiveRungeKutta  # noqa: F401
    from nbkode.runge_kutta.explicit import Fehlberg45

    from .. import trees

    if "f" not in _cls:
        _cls["f"] = type(Fehlberg45)(fresh(), (Fehlberg45,), {})
    p = case["order"]
    if p == 0:
        sol = _cls["f"](problems.guard(problems.PROBLEMS["U"]), 0.0, problems.y0_of(2), rtol=1e-6, atol=1e-9)
        exact = lockstep.build({"solver": "DOP853", "prob": "U", "dim": 2, "t0": 0.0, "kw": {"rtol": 1e-11, "atol": 1e-12}}, ctx.mode)
        ts, ys = sol.run([0.5, 1.0, 2.0])
        te, ye = exact.run([0.5, 1.0, 2.0])
        ctx.require(near(ys, ye, 3e-5), "Fehlberg45 gives %s instead of %s", ys, ye)
    elif p <= 4:
        # quadrature and chains of order p: exact for polynomial forcing
        for m in range(p):
            sol = _cls["f"](lambda t, y: np.array([t**m] + [y[0]] * (y.size - 1)), 0.0, np.zeros(2), first_step=0.5, max_step=0.5, rtol=1e3, atol=1e3)
            sol.step()
            want = 0.5 ** (m + 1) / (m + 1)
            ctx.require(abs(float(sol.y[0]) - want) < 1e-12, "Fehlberg45: integral of t^%d is %r instead of %r", m, float(sol.y[0]), want)
            if m + 2 <= 4:
                want = 0.5 ** (m + 2) / (m + 1) / (m + 2)
                ctx.require(abs(float(sol.y[1]) - want) < 1e-12, "Fehlberg45: double integral of t^%d is %r instead of %r", m, float(sol.y[1]), want)
    ctx.state("fehlberg", p)
    ctx.step()
    ctx.trace()


def run_implicit(case, ctx, cls, f, y0):
    """Visited states satisfy the equation of the table."""
    A, B, bn = case["tab"]
    k = len(A)
    sol = cls(f, case["t0"], y0, h=H, first_stepper_cls=case["first"])
    t = case["t0"] + (k - 1) * H
    ctx.require(near(sol.t, t), "start-up of %s ends at %r instead of %r", case["tab"], float(sol.t), t)
    raw = problems.PROBLEMS["U"]
    ys = [np.array(sol.interpolate(case["t0"] + j * H), float) for j in range(k - 1)] + [np.array(sol.y, float)]
    fs = [raw(case["t0"] + j * H, y) for j, y in enumerate(ys)]
    for i in range(5):
        known = -sum(a * v for a, v in zip(A, ys)) + H * sum(b * v for b, v in zip(B, fs[k - len(B) :]))
        sol.step()
        t += H
        y = np.array(sol.y, float)
        fy = raw(t, y)
        res = y - H * bn * fy - known
        ctx.require(near(sol.t, t) and near(sol.f, fy), "%s step %d: t=%r f=%s", case["tab"], i + 1, float(sol.t), sol.f)
        ctx.require(np.max(np.abs(res)) < 2e-7 * (1 + np.max(np.abs(known))), "%s step %d: y=%s, residual %s", case["tab"], i + 1, y, res)
        ys, fs = ys[1:] + [y], fs[1:] + [fy]
        ctx.step()
        ctx.state("am", str(case["tab"]), i)


def start_values(case, m, y0):
    """The start-up of a multistep method: the states its starter visits."""
    import nbkode

    k = len(case["tab"][0])
    m.add(case["t0"], y0)
    if k == 1:
        return
    if case["first"] == "ForwardEuler":
        for _ in range(k - 1):
            m.add(m.ts[-1] + H, m.ys[-1] + H * m.fs[-1])
    elif case["first"] == "RungeKutta4":
        for _ in range(k - 1):
            t, y = m.ts[-1], m.ys[-1]
            y1, _ = ref.rk_step("RungeKutta4", m.rhs, t, y, m.fs[-1], H)
            m.add(t + H, y1)
    else:
        s = nbkode.RungeKutta45(problems.get("U", "interp"), case["t0"], y0)
        ts, ys = s.run(case["t0"] + H * np.arange(1, k))
        for t, y in zip(ts, ys):
            m.add(float(t), y)


def run(case, ctx):
    import nbkode

    kind = case["kind"]
    if kind == "fehlberg":
        return run_fehlberg(case, ctx)
    if kind == "child":
        return run_child(case, ctx)
    key = (kind, repr(case["tab"]), case.get("q"), case.get("len"), case.get("bn"), case.get("share"))
    if key not in _cls:
        if len(_cls) > 200:
            _cls.clear()
        _cls[key] = make(case)
    cls = _cls[key]
    names = ("A", "B", "C") if kind == "erk" else ("A", "B") if kind in ("ab", "am") else TABLES[:2] + ("B2", "C")
    for nm, v in zip(names, case["tab"]):
        ctx.require(np.array_equal(np.asarray(getattr(cls, nm)), v), "%s: table %s is now %s", case, nm, getattr(cls, nm))
    implicit = kind == "am" and case["tab"][2] != 0
    fixed = kind not in ("pair", "fsal")
    ctx.require(bool(cls.IMPLICIT) == implicit and bool(cls.FIXED_STEP) == fixed, "%s: implicit=%r, fixed step=%r", case, cls.IMPLICIT, cls.FIXED_STEP)
    got = [s for s in nbkode.get_solvers(implicit=implicit, fixed_step=fixed, multistep=kind in ("ab", "am")) if s is cls]
    ctx.require(len(got) == 1 and nbkode.get_solver(cls.__name__.upper()) is cls, "%s is not in the catalogue as what it is", case)
    prob = case.get("prob", "U")
    raw = problems.PROBLEMS[prob]
    y0 = problems.y0_of(case["dim"])
    if kind == "am":
        run_implicit(case, ctx, cls, problems.get(prob, ctx.mode), y0)
        ctx.trace()
        return

    def build(**kw):
        if kind in ("pair", "fsal"):
            kw.update(OPTS[case["opt"]])
        else:
            kw["h"] = H
            if kind == "ab":
                kw["first_stepper_cls"] = case["first"]
        return cls(problems.get(prob, ctx.mode), case["t0"], y0, **kw)

    m = Run(case, raw)
    if kind == "ab":
        start_values(case, m, y0)
    else:
        m.add(case["t0"], y0)
        if kind != "erk":
            m.h = OPTS[case["opt"]]["first_step"]
    start = len(m.ts) - 1
    # the model: up to 9 steps
    hs = {start: m.h}
    stop = None
    while len(m.ts) - 1 < start + 9:
        r = m.step()
        if not r:
            stop = r
            break
        if not np.all(np.abs(m.ys[-1]) < 1e6):
            m.ts.pop(), m.ys.pop(), m.fs.pop()
            break
        hs[len(m.ts) - 1] = m.h
    last = len(m.ts) - 1
    lab = "%s %s" % (kind, case["tab"])

    def same(sol, i, what):
        ctx.require(
            near(sol.t, m.ts[i], 1e-12) and near(sol.y, m.ys[i]) and near(sol.f, m.fs[i], 1e-8),
            "%s: after %s at t=%r y=%s f=%s, the table gives t=%r y=%s f=%s", lab, what, float(sol.t), sol.y, sol.f, m.ts[i], m.ys[i], m.fs[i],
        )
        ctx.step()

    sol = build()
    same(sol, start, "the start-up")
    i = start
    while i < last:
        ts, ys = sol.step()
        i += 1
        same(sol, i, "%d steps" % (i - start))
        if not fixed:
            ctx.require(near(sol.h, hs.get(i, float(sol.h)), 1e-6), "%s: proposes h=%r after %d steps, the table gives %r", lab, float(sol.h), i - start, hs.get(i))
        ctx.state(kind, str(case["tab"]), case.get("opt"), prob, i)
    if stop is False and not fixed:
        try:
            sol.step()
        except RuntimeError:
            same(sol, last, "a refused step")
            ctx.outcome("refused")
        else:
            ctx.require(False, "%s: a step smaller than min_step was not refused", lab)
    n = last - start
    if n >= 3:
        sol = build()
        ts, ys = sol.step(n=n)
        ctx.require(near(ts, m.ts[start + 1 :], 1e-12) and near(ys, np.array(m.ys[start + 1 :])), "%s: step(n=%d) gives %s %s", lab, n, ts, ys)
        sol = build()
        mid = 0.5 * (m.ts[start + 2] + m.ts[start + 3])
        sol.skip(upto_t=mid) if fixed or m.ts[start + 3] > mid else None
        if fixed:
            same(sol, start + 2, "skip to %r" % mid)
        sol = build()
        # up to just before the end of the third step
        plan = [m.ts[j] + x * (m.ts[j + 1] - m.ts[j]) for j in (start, start + 1, start + 2) for x in (0.3, 0.999)]
        ts, ys = sol.run(plan)
        want = np.array([m.at(t) for t in plan])
        ctx.require(near(ys, want, 1e-8), "%s: run(%s) gives %s instead of %s", lab, plan, ys, want)
        same(sol, start + 3, "run")
        # a bound inside each of the first proposals: a step is taken as
        # long as the proposed size fits
        for j in range(3):
            bound = m.ts[start + j] + 0.5 * hs[start + j]
            fit = [m.ts[start + i] + hs[start + i] <= bound for i in range(j + 1)].index(False)
            sol = build(t_bound=bound)
            k = 0
            try:
                for k in range(j + 2):
                    sol.step()
            except RuntimeError:
                pass
            ctx.require(k == fit, "%s: %d steps fit before the bound %r instead of %d", lab, k, bound, fit)
            same(sol, start + fit, "the bound")
    if n >= 3 and case.get("len"):
        # the longer history can be interpolated
        sol = build()
        for j in range(1, n + 1):
            sol.step()
            for back in range(1, min(case["len"], start + j + 1)):
                a, b = m.ts[start + j - back], m.ts[start + j - back + 1]
                for x in (0.5, 0.9):
                    got = sol.interpolate(a + x * (b - a))
                    ctx.require(near(got, m.at(a + x * (b - a)), 1e-8), "%s: after %d steps interpolate(%r), %d steps back, gives %s instead of %s", lab, j, a + x * (b - a), back, got, m.at(a + x * (b - a)))
                    ctx.step()
    ctx.outcome("predicted %d steps" % min(n, 9))
    ctx.trace()
