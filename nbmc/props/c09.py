"""C09: dense output agrees with the steps and never extrapolates."""

import itertools

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C09"
TECHNIQUE = "stateless model checking of the real code: all interleavings of queries with steps up to a depth, against an independent interpolant of the recorded steps"
NOTE = (
    "The oracle is built from the visited (t, y, f) only: cubic Hermite for fixed steps, SciPy's dense output classes, "
    "with stages recomputed, for the embedded pairs. All interleavings of steps, skips, runs and queries (inside the last "
    "step, inside older recorded steps, on step ends, outside), also across rejected steps; plus fine grids over every "
    "recorded interval and polynomial problems where the interpolant must be exact."
)
RULE = "26 solvers x {exact, inexact, rejected steps} x start positions {0,1,13} x all action sequences up to depth 3 (quick) / 4 (thorough)"
ASSUMPTIONS = ["times older than the history of the method may be refused or answered (correctly)"]

ACTIONS = (
    ("q", 0.5),      # inside the last step
    ("q", 0.0),      # on its end
    ("q", 1.0),      # on its start
    ("q", 1.7),      # inside the one before
    ("q", "oldest"),
    ("q", "out"),
    ("s", 1),
    ("k", 2),
    ("r", 0.6),
)
DEGREE = {"RungeKutta45": 4, "DOP853": 7}


def configurations(name):
    out = [configs.dyadic(name), configs.free(name)]
    if name in ref.ADAPTIVE:
        out.append(configs.free(name, dim=1, aprob="U"))
    if name in ref.MULTI:
        out.append(configs.dyadic(name, dim=1, first="none"))
    return out


def cases(tier, mode):
    out = []
    depth = 3 if tier == "quick" else 4
    ix = range(len(ACTIONS))
    hist = [h for d in range(1, depth + 1) for h in itertools.product(ix, repeat=d)]
    for name in ref.ALL:
        for c in configurations(name):
            for n0 in (0, 1, 13):
                for h in hist:
                    if len(h) >= 3 and n0 == 1 and tier == "quick":
                        continue
                    if len(h) == depth and ACTIONS[h[-1]][0] in "sk":
                        continue
                    out.append(dict(c, n0=n0, acts=[ACTIONS[i] for i in h]))
            for prob in ("U", "clock", "swing"):
                out.append(dict(c, prob=c["prob"] if prob == "U" else prob, grid=25 if tier == "quick" else 60))
            out.append(dict(c, outside=1))
        deg = DEGREE.get(name, 3)
        if ref.ORDER[name] >= 3:
            for d in range(deg + 1):
                for t0 in (0.0, 1.5, -3.0):
                    for dim in (1, 2):
                        out.append({"solver": name, "prob": "poly", "deg": d, "dim": dim, "t0": t0, "h": 0.25})
    out.sort(key=lambda c: (len(c.get("acts", ())), c.get("n0", 0)))
    return out


class Track:
    """The visited states, and the interpolant over each step."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.name = case["solver"]
        self.rhs = problems.PROBLEMS[case["prob"]] if "_rhs" not in case else case["_rhs"]
        self.sol = lockstep.build(case, ctx.mode)
        self.ts, self.ys, self.fs = [], [], []
        start = 0 if case.get("first") == "none" else ref.start_index(self.name)
        t0 = float(case["t0"])
        for j in range(start):
            t = t0 + j * case["h"]
            try:
                y = np.array(self.sol.interpolate(t), float)
            except ValueError:
                # t0 + j h in floating point may be off by a rounding error
                t = float(np.nextafter(t, np.inf))
                y = np.array(self.sol.interpolate(t), float)
            self.ts.append(t)
            self.ys.append(y)
            self.fs.append(self.rhs(t, y))
        self.push()
        self.dense = {}

    def push(self):
        s = self.sol
        y = np.array(s.y, float)
        self.ts.append(float(s.t))
        self.ys.append(y)
        self.fs.append(np.asarray(self.rhs(float(s.t), y), float))

    def first_recorded(self):
        return self.ts[max(0, len(self.ts) - max(ref.hist_len(self.name), 2))]

    def value(self, t):
        if t == self.ts[-1]:
            return self.ys[-1]
        i = max(0, int(np.searchsorted(self.ts, t, "right")) - 1)
        if t == self.ts[i]:
            return self.ys[i]
        a = (self.ts[i], self.ys[i], self.fs[i], self.ts[i + 1], self.ys[i + 1], self.fs[i + 1])
        if self.name in ref.ADAPTIVE:
            if i not in self.dense:
                self.dense[i] = ref.dense(self.name, self.rhs, *a)
            return self.dense[i](t)
        return ref.hermite(t, *a)

    def close(self, v, t):
        w = self.value(t)
        i = min(max(0, int(np.searchsorted(self.ts, t, "right")) - 1), len(self.ts) - 1)
        j = min(i + 1, len(self.ts) - 1)
        at = 1e-12 * (1 + np.max(np.abs(self.ys[i])) + np.max(np.abs(self.ys[j])) + abs(self.ts[j] - self.ts[i]) * 100 * max(np.max(np.abs(self.fs[i])), np.max(np.abs(self.fs[j]))))
        return np.shape(v) == np.shape(w) and bool(np.all(np.abs(np.asarray(v) - w) <= at + 1e-9 * np.abs(w)))

    def query(self, t, label):
        req, sol = self.ctx.require, self.sol
        y0 = (float(sol.t), np.array(sol.y))
        try:
            v = np.array(sol.interpolate(t), float)
        except ValueError as e:
            req(not self.first_recorded() <= t <= self.ts[-1], "%s: interpolate(%r) raised %s inside [%r, %r]", label, t, e, self.first_recorded(), self.ts[-1])
            self.ctx.outcome("refused")
        else:
            req(self.ts[0] <= t <= self.ts[-1], "%s: interpolate(%r) did not raise outside [%r, %r]", label, t, self.ts[0], self.ts[-1])
            w = self.value(t)
            req(self.close(v, t), "%s: interpolate(%r) = %s instead of %s (steps at %s)", label, t, v, w, self.ts[-4:])
            if t in self.ts:
                j = self.ts.index(t)
                req(lockstep.close(v, self.ys[j], 1e-13, 1e-15), "%s: interpolate at the step end %r = %s, recorded %s", label, t, v, self.ys[j])
            self.ctx.outcome("answered")
        req((float(sol.t), True) == (y0[0], np.array_equal(sol.y, y0[1])), "%s: interpolate moved the solver", label)


def advance(tr, n):
    for _ in range(n):
        tr.sol.step()
        tr.push()


def catch_up(tr, ctx):
    """Record the steps made by a call that does not report them."""
    twin = lockstep.build(tr.case, ctx.mode)
    sol, tr.sol = tr.sol, twin
    while twin.t < sol.t:
        twin.step()
        if twin.t > tr.ts[-1]:
            tr.push()
    tr.sol = sol


def poly_rhs(deg, dim, t0):
    """y_i(t) = sum_k c_ik (t - t0)^k, known exactly."""
    c = [[(1.0 + i) * (-1) ** k / (1.0 + k) for k in range(deg + 1)] for i in range(dim)]

    def exact(t):
        x = t - t0
        return np.array([sum(ck * x**k for k, ck in enumerate(ci)) for ci in c])

    def rhs(t, y):
        x = t - t0
        return np.array([sum(k * ck * x ** (k - 1) for k, ck in enumerate(ci) if k) for ci in c]) + 0.0 * y

    return rhs, exact


def run(case, ctx):
    if case["prob"] == "poly":
        return run_poly(case, ctx)
    tr = Track(case, ctx)
    req = ctx.require
    if "grid" in case:
        for k in range(case["grid"]):
            lo = tr.first_recorded()
            i0 = tr.ts.index(lo)
            for i in range(i0, len(tr.ts) - 1):
                for x in (0.0, 1e-9, 0.01, 0.125, 0.3, 0.5, 0.71, 0.9, 0.999999, 1.0):
                    t = tr.ts[i] + x * (tr.ts[i + 1] - tr.ts[i])
                    tr.query(min(t, tr.ts[i + 1]), "after %d steps" % k)
            ctx.step()
            ctx.state(case["solver"], case["prob"], k, round(tr.ts[-1], 9))
            advance(tr, 1)
        ctx.trace()
        return
    if "outside" in case:
        for k in range(8):
            t, lo = tr.ts[-1], tr.ts[0]
            for x in (
                float(np.nextafter(t, np.inf)), t + 1e-9, t + 0.1, t + 50, np.inf, -np.inf, np.nan,
                float(np.nextafter(lo, -np.inf)), lo - 1e-6, lo - 0.3, lo - 50, -t - 100,
            ):
                tr.query(x, "after %d steps" % k)
                # an out of range query leaves nothing behind
                tr.query(t, "after %d steps" % k)
                tr.query(t - 0.3 * (t - tr.ts[max(0, len(tr.ts) - 2)]), "after %d steps" % k)
            ctx.step()
            advance(tr, 1)
        ctx.trace()
        return
    advance(tr, case["n0"])
    label = "after %d steps" % case["n0"]
    for act in case["acts"]:
        kind, x = act
        t = tr.ts[-1]
        if kind == "q":
            if x == "oldest":
                q = tr.first_recorded()
            elif x == "out":
                q = t + 0.3
            else:
                k = int(np.ceil(x))
                i = max(0, len(tr.ts) - 1 - k)
                q = tr.ts[i] + (k - x) * ((tr.ts[i + 1] if i + 1 < len(tr.ts) else t) - tr.ts[i])
                if len(tr.ts) - 1 < k:
                    q = tr.ts[0]
            tr.query(q, label)
            label += ", query %r" % q
        elif kind == "s":
            advance(tr, 1)
            label += ", step"
        elif kind == "k":
            # skip: the states in between are those of a twin that single-steps
            tr.sol.skip(n=x)
            catch_up(tr, ctx)
            req(tr.ts[-1] == float(tr.sol.t) and lockstep.close(tr.ys[-1], tr.sol.y), "%s: skip ended at %r", label, float(tr.sol.t))
            label += ", skip"
        else:
            q = t + 0.5 * x * float(tr.sol.h)
            ts, ys = tr.sol.run(q)
            catch_up(tr, ctx)
            req(lockstep.close(ts, [q]), "%s: run(%r) returned t=%s", label, q, ts)
            req(q <= tr.ts[-1], "%s: run(%r) stopped at %r", label, q, tr.ts[-1])
            req(tr.close(np.asarray(ys[0]), q), "%s: run(%r) = %s instead of %s", label, q, ys[0], tr.value(q))
            label += ", run(%r)" % q
        ctx.step()
        ctx.state(case["solver"], case["prob"], case["dim"], len(tr.ts), act)
    # whatever was done, the last step is interpolated correctly
    tr.query(tr.ts[-1], label)
    if len(tr.ts) > 1:
        tr.query(tr.ts[-1] - 0.37 * (tr.ts[-1] - tr.ts[-2]), label)
    ctx.trace()


def run_poly(case, ctx):
    import nbkode

    rhs, exact = poly_rhs(case["deg"], case["dim"], case["t0"])
    name, t0 = case["solver"], case["t0"]
    kw = {}
    if name in ref.MULTI:
        kw = {"h": 0.25, "first_stepper_cls": "DOP853"}
    elif name in ref.ADAPTIVE:
        kw = {"first_step": 0.25, "max_step": 0.25}
    else:
        kw = {"h": 0.25}
    sol = getattr(nbkode, name)(rhs, t0, exact(t0), **kw)
    for k in range(6):
        a, b = float(sol.t), None
        sol.step()
        b = float(sol.t)
        for x in (0.0, 0.1, 0.25, 0.5, 0.77, 0.95, 1.0):
            t = min(a + x * (b - a), b)
            v = sol.interpolate(t)
            w = exact(t)
            at = 1e-7 if name in ref.IMPLICIT else 1e-9
            scale = 1 + np.max(np.abs(exact(b))) + abs(b - t0) ** case["deg"]
            ctx.require(
                np.all(np.abs(v - w) <= at * scale), "polynomial of degree %d: step %d, interpolate(%r) = %s instead of %s",
                case["deg"], k, t, v, w,
            )
        ctx.step()
        ctx.state(name, case["deg"], case["dim"], t0, k)
    ctx.trace()


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_D[:5] + ("RungeKutta23", "RungeKutta45", "DOP853")
    sub = [
        c for c in cases("quick", "jit")
        if c["prob"] in ("U", "pulse") and c["dim"] == 2 and c.get("first") is None
        and (("acts" in c and len(c["acts"]) <= 2) or "outside" in c or c.get("grid"))
        and (c["solver"] in ref.ADAPTIVE or c["h"] == 0.25)
    ]
    return configs.per_solver(sub, names)
