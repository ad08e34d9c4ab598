"""C15: a failing right-hand side or event leaves the solver at its last completed step."""

import itertools

import numpy as np

from .. import configs, events, lockstep, problems, ref

PID = "C15"
LEVEL = "fault_enumeration"
TECHNIQUE = "explicit-state exploration with fault injection on the real code: an exception at every single evaluation of the right-hand side and of each event function, in every kind of call, followed by all continuations of an alphabet"
NOTE = (
    "For every solver, position and call, the undisturbed call is run once to count the evaluations; then one execution "
    "per evaluation index has that evaluation raise. After it: the same exception object reached the caller, the solver "
    "is on a completed step of the undisturbed trajectory, history can be interpolated, and each continuation is right. "
    "Compiled functions can only fail at a time, which is checked for 8 solvers."
)
RULE = "26 solvers x positions x 8 calls x every evaluation index x 4 continuations; double faults; events"
ASSUMPTIONS = ["the exception is an ordinary Exception", "the right-hand side raises before it returns, and is otherwise pure"]

CALLS = (
    ("step",), ("stepn", 3), ("stepto", 2.6), ("skipn", 2), ("skipto", 1.7), ("run", 1.3), ("runs", 2.2),
    ("events", 1.6), ("interp", 0.5),
)
CONT = ("step", "run", "interp", "again")


class Fault(Exception):
    pass


def cases(tier, mode):
    out = []
    for name in ref.ALL:
        cfgs = [configs.dyadic(name, dim=2), configs.free(name, dim=1, prob="clock", aprob="pulse")]
        if name in ref.ADAPTIVE:
            cfgs.append(configs.free(name, dim=2, aprob="U"))
        for c in cfgs:
            slow = name in ref.ADAPTIVE or name in ref.IMPLICIT
            for pos in (0, 1, 6) if tier != "quick" or not slow else ((0, 4) if c["dim"] == 2 else (1,)):
                for call in CALLS:
                    for cont in CONT:
                        if tier == "quick" and pos == 1 and cont in ("run", "again"):
                            continue
                        if tier == "quick" and name not in ref.ADAPTIVE and c["h"] == 0.25 and cont in ("run", "again"):
                            continue
                        out.append(dict(c, pos=pos, call=list(call), cont=cont))
                out.append(dict(c, pos=pos, call=["events", 1.6], cont="run", who="event"))
                out.append(dict(c, pos=pos, call=["events2", 1.6], cont="step", who="event"))
                out.append(dict(c, pos=pos, call=["events2", 1.6], cont="interp", who="event"))
            out.append(dict(c, build=1))
    return out


class Env:
    """Counts evaluations; the armed one raises."""

    def __init__(self, f):
        self.f, self.n, self.at, self.err = f, 0, None, None
        self.budget = 200000

    def __call__(self, t, y):
        self.n += 1
        if self.n > self.budget:
            from ..engine import Hang

            raise Hang()
        if self.at is not None and self.n == self.at:
            self.err = Fault("evaluation %d" % self.n)
            raise self.err
        return self.f(t, y)

    def arm(self, k):
        self.n, self.at = 0, k

    def disarm(self):
        self.at = None


def do(sol, call, h, evs, prev):
    k = call[0]
    t = float(sol.t)
    if k == "step":
        return sol.step()
    if k == "stepn":
        return sol.step(n=call[1])
    if k == "stepto":
        return sol.step(upto_t=t + call[1] * h)
    if k == "skipn":
        return sol.skip(n=call[1])
    if k == "skipto":
        return sol.skip(upto_t=t + call[1] * h)
    if k == "run":
        return sol.run(t + call[1] * h)
    if k == "runs":
        return sol.run([t + x * call[1] * h for x in (1.0, 0.2, 0.6, 0.6)])
    if k == "events":
        return sol.run_events(t + call[1] * h, [evs[0]])
    if k == "events2":
        return sol.run_events([t + 0.3 * h, t + call[1] * h], list(evs))
    if k == "interp":
        return sol.interpolate(t - call[1] * (t - prev))
    raise ValueError(k)


def crossing(t, y):
    return np.sin(9.0 * t)


def rising(t, y):
    return y[0] - 0.3 * np.cos(4 * t)


def run(case, ctx):
    if ctx.jit:
        return run_jit(case, ctx)
    req, mode, name = ctx.require, ctx.mode, case["solver"]
    f = problems.PROBLEMS[case["prob"]]
    st = events.Steps(case, mode)

    def fresh():
        env = Env(f)
        e1, e2 = Env(crossing), Env(rising)
        sol = lockstep.build(dict(case, _rhs=env), mode)
        return sol, env, (e1, e2)

    if "build" in case:
        sol, env, _ = fresh()
        total = env.n
        for k in range(1, total + 1):
            env = Env(f)
            env.arm(k)
            try:
                lockstep.build(dict(case, _rhs=env), mode)
            except Fault as e:
                req(e is env.err, "building with evaluation %d failing: another exception", k)
            else:
                req(False, "building with evaluation %d failing did not raise", k)
            env.disarm()
            sol = lockstep.build(dict(case, _rhs=env), mode)
            req(float(sol.t) == st.ts[0] and np.array_equal(sol.y, st.ys[0]), "building after a failure starts at %r, %s", float(sol.t), sol.y)
            ctx.step()
            ctx.state(name, "build", k)
        ctx.trace()
        return

    pos, call, who = case["pos"], case["call"], case.get("who", "rhs")

    def ready():
        sol, env, evs = fresh()
        if pos:
            sol.step(n=pos)
        return sol, env, evs

    prev = st.t(pos - 1) if pos else st.ts[0]
    # a solver that was interpolated before has more internal state
    sol, env, evs = ready()
    h = float(sol.h)
    counters = [env] if who == "rhs" else list(evs)
    for c in counters:
        c.n = 0
    do(sol, call, h, evs, prev)
    totals = [c.n for c in counters]
    for which, total in enumerate(totals):
        for k in range(1, total + 1):
            for warm in (False, True):
                if warm and (case["cont"] != "interp" or pos == 0):
                    continue
                sol, env, evs = ready()
                if warm:
                    sol.interpolate(0.5 * (prev + float(sol.t)))
                target = env if who == "rhs" else evs[which]
                target.arm(k)
                label = "%s from step %d with %s evaluation %d failing" % (call, pos, who, k)
                try:
                    do(sol, call, h, evs, prev)
                except Fault as e:
                    req(e is target.err, "%s: another exception reached the caller", label)
                else:
                    req(target.n < k, "%s: the exception did not reach the caller", label)
                target.disarm()
                after(case, ctx, sol, st, pos, label, f, env, evs, h, call)
                ctx.step()
                ctx.state(name, case["prob"], case["dim"], pos, tuple(call), which, k, case["cont"])
    ctx.outcome("faults %d" % (sum(totals) > 0))
    ctx.trace()


def after(case, ctx, sol, st, pos, label, f, env, evs, h, call):
    req, name = ctx.require, case["solver"]
    t, y, fv = float(sol.t), np.array(sol.y), np.array(sol.f)
    i = pos
    while st.t(i) < t:
        i += 1
    req(st.ts[i] == t, "%s: left at t=%r, which is not the end of a step (%r, %r)", label, t, st.ts[max(i - 1, 0)], st.ts[i])
    req(np.array_equal(y, st.ys[i]), "%s: left with y=%s at t=%r instead of %s", label, y, t, st.ys[i])
    req(np.array_equal(fv, st.fs[i]), "%s: left with f=%s at t=%r instead of %s", label, fv, t, st.fs[i])
    # recorded history
    if i > 0:
        check_interp(ctx, sol, st, i, label)
    cont = case["cont"]
    if cont == "again":
        # the fault strikes once more, at the very next evaluation
        env.arm(1)
        try:
            sol.step()
        except Fault as e:
            req(e is env.err, "%s: another exception", label)
            req(float(sol.t) == t and np.array_equal(sol.y, y) and np.array_equal(sol.f, fv), "%s, and failing again: moved to %r", label, float(sol.t))
            if i > 0:
                check_interp(ctx, sol, st, i, label + ", and failing again")
        env.disarm()
    adaptive = name in ref.ADAPTIVE and "first_step" not in case.get("kw", {})
    if not adaptive:
        if cont == "run":
            j = i + 4
            q = 0.3 * st.t(j - 1) + 0.7 * st.t(j)
            ts, ys = sol.run([q, st.ts[j - 1], q])
            req(lockstep.close(ts, [q, st.ts[j - 1], q]), "%s, then run: t=%s", label, ts)
            w = st.at(q)
            req(lockstep.close(ys, [w, st.ys[j - 1], w], 1e-8, 1e-9), "%s, then run: y=%s instead of %s", label, ys, w)
            req(lockstep.close(sol.t, st.ts[j]) and lockstep.close(sol.y, st.ys[j]), "%s, then run: at t=%r", label, float(sol.t))
        else:
            ts, ys = sol.step(n=8)
            st.need(i + 8)
            req(lockstep.close(ts, st.ts[i + 1 : i + 9]), "%s, then step(n=8): t=%s instead of %s", label, ts, st.ts[i + 1 : i + 9])
            req(lockstep.close(ys, np.array(st.ys[i + 1 : i + 9])), "%s, then step(n=8): y=%s instead of %s", label, ys, st.ys[i + 1 : i + 9])
            check_interp(ctx, sol, st, i + 8, label + ", then step(n=8)")
        return
    # variable steps: the size proposed may have changed, the steps must be valid
    o = {"atol": 1e-6, "rtol": 1e-3, **case.get("kw", {})}
    for k in range(4):
        t0, y0, f0 = float(sol.t), np.array(sol.y), np.array(sol.f)
        if cont == "run" and k == 0:
            sol.run(t0 + 1e-3)
        else:
            sol.step()
        t1, y1, f1 = float(sol.t), np.array(sol.y), np.array(sol.f)
        req(t1 > t0, "%s, then step: time went from %r to %r", label, t0, t1)
        req(np.array_equal(f1, f(t1, y1)), "%s, then step: f=%s is not the derivative", label, f1)
        if not (cont == "run" and k == 0):
            w, K = ref.rk_step(name, f, t0, y0, f0, t1 - t0)
            req(lockstep.close(y1, w, 1e-8, 1e-9), "%s, then step: y=%s instead of %s", label, y1, w)
            err, rnd = ref.error_norm(name, K, f1, y0, y1, t1 - t0, o["atol"], o["rtol"])
            req(err < 1 + 1e-4 + 100 * rnd, "%s, then step: error norm %r accepted", label, err)
            d = ref.dense(name, f, t0, y0, f0, t1, y1, f1)
            for x in (0.3, 0.8):
                q = t0 + x * (t1 - t0)
                v = sol.interpolate(q)
                req(lockstep.close(v, d(q), 1e-8, 1e-8), "%s, then step: interpolate(%r) = %s instead of %s", label, q, v, d(q))


def check_interp(ctx, sol, st, i, label):
    a, b = st.ts[i - 1], st.ts[i]
    for x in (0.0, 0.25, 0.7, 1.0):
        q = min(a + x * (b - a), b)
        v = np.array(sol.interpolate(q), float)
        w = st.value(q, i - 1)
        ctx.require(
            bool(np.all(np.abs(v - w) <= 1e-9 * st.scale(i - 1))),
            "%s: interpolate(%r) in the last step [%r, %r] = %s instead of %s", label, q, a, b, v, w,
        )


def wall(t, y):
    if t > 2.4:
        raise ValueError("wall")
    return np.cos(3.0 * t) - 0.5 * y


def run_jit(case, ctx):
    """Compiled: the function fails from a time on."""
    import numba

    req, name = ctx.require, case["solver"]
    if "wall" not in _j:
        _j["wall"] = numba.njit(wall)
    c = dict(case, _rhs=_j["wall"])
    sol = lockstep.build(c, "jit")
    seen = [(float(sol.t), np.array(sol.y))]
    for k in range(400):
        try:
            if case["wall"] == "step":
                sol.step()
            elif case["wall"] == "skip":
                sol.skip(n=2)
            elif case["wall"] == "run":
                sol.run(float(sol.t) + 0.4)
            elif case["wall"] == "stepn":
                sol.step(n=3)
            else:
                sol.step(upto_t=float(sol.t) + max(0.7, 1.5 * float(sol.h)))
        except ValueError as e:
            req("wall" in str(e), "another error: %s", e)
            break
        except RuntimeError as e:
            req(False, "the exception became %s", e)
        seen.append((float(sol.t), np.array(sol.y)))
        ctx.step()
    else:
        req(False, "the exception never reached the caller")
    t, y = float(sol.t), np.array(sol.y)
    req(t <= 2.4 and np.all(np.isfinite(y)), "left at t=%r, y=%s", t, y)
    req(lockstep.close(sol.f, wall(t, y)), "f=%s is not the derivative at t=%r", sol.f, t)
    # the same trajectory by single steps
    twin = lockstep.build(c, "jit")
    prev = float(twin.t)
    while twin.t < t:
        prev = float(twin.t)
        twin.step()
    req(float(twin.t) == t and np.array_equal(twin.y, y), "left at t=%r, y=%s, not a completed step", t, y)
    if prev < t:
        for x in (0.0, 0.4, 1.0):
            q = min(prev + x * (t - prev), t)
            v, w = sol.interpolate(q), twin.interpolate(q)
            req(lockstep.close(v, w, 1e-9, 1e-11), "interpolate(%r) = %s instead of %s", q, v, w)
    for _ in range(2):
        try:
            sol.step()
            break
        except ValueError:
            req(float(sol.t) == t and np.array_equal(sol.y, y), "failing again moved the solver")
    ctx.state(name, case["wall"], t)
    ctx.trace()


_j = {}


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS
    out = []
    for n in names:
        g = []
        for c in (configs.dyadic(n, dim=2), configs.free(n, dim=2, t0=0.1)):
            for w in ("step", "skip", "run", "stepn", "upto"):
                g.append(dict(c, prob="wall", wall=w))
        out.append(g)
    return out
