"""C13: results are snapshots and inputs are left alone."""

import itertools
import warnings

import numpy as np

from .. import configs, events, lockstep, problems, ref

PID = "C13"
TECHNIQUE = "stateless model checking of the real code: all call histories up to a depth, with the environment overwriting every returned and every passed array in between, in lock step with an undisturbed twin"
NOTE = (
    "Two solvers execute the same history. One is left alone; the results of the other are kept, and (in the writing "
    "variant) overwritten as soon as they are returned, as are the arrays passed in. Results must equal the twin's at the "
    "time of return and must not change later; inputs must be what they were."
)
RULE = "26 solvers x configurations x all histories of 18 calls up to depth 2 (quick) / 3 (thorough) x {keep, overwrite}; all input forms x {keep, overwrite}"
ASSUMPTIONS = ["the attributes t, y and f of a solver are live views and are not considered results"]

CALLS = (
    "step", "step1", "step3", "step0", "step_to", "step_behind", "run_scalar", "run_list", "run_array", "run_past",
    "interp_now", "interp_mid", "interp_prev", "events", "events_term", "events_unsorted", "skip", "events_grid",
)
INPUTS = ("y0", "y0_list", "y0_view", "params", "params_view", "params_list", "t_sorted", "t_unsorted", "t_term", "t_int", "t_list", "rhs_buffer", "rhs_self", "events_list", "shared_y0")


def cases(tier, mode):
    out = []
    ix = range(len(CALLS))
    hist = [h for d in (1, 2) for h in itertools.product(ix, repeat=d)]
    core = (0, 4, 7, 8, 10, 11, 13, 14, 17)
    hist += list(itertools.product(ix if tier == "thorough" else core, repeat=3))
    for name in ref.ALL:
        for c in (configs.dyadic(name), configs.free(name, dim=1, prob="U", aprob="U")):
            for h in hist:
                for write in (False, True):
                    if tier == "quick" and (len(h) == 3 or c["dim"] == 1) and (c["dim"] == 1 or not write):
                        if not (c["dim"] == 1 and len(h) == 2 and not write):
                            continue
                    out.append(dict(c, ops=list(h), write=write))
        for c in (configs.dyadic(name), configs.free(name, dim=1, prob="U", aprob="U")):
            for i in INPUTS:
                for write in (False, True):
                    out.append(dict(c, input=i, write=write))
    out.sort(key=lambda c: len(c.get("ops", ())))
    return out


def call(sol, kind, prev, evs):
    """Returns a flat list of the objects that were returned."""
    t, h = float(sol.t), float(sol.h)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "step":
            r = sol.step()
        elif kind == "step1":
            r = sol.step(n=1)
        elif kind == "step3":
            r = sol.step(n=3)
        elif kind == "step0":
            r = sol.step(n=0)
        elif kind == "step_to":
            r = sol.step(upto_t=t + 2.5 * h)
        elif kind == "step_behind":
            r = sol.step(upto_t=t - h)
        elif kind == "run_scalar":
            r = sol.run(t + 0.4 * h)
        elif kind == "run_list":
            r = sol.run([t + 1.5 * h, t, t + 0.1 * h])
        elif kind == "run_array":
            r = sol.run(np.array([t + 0.2 * h, t + h, t + 2.0 * h]))
        elif kind == "run_past":
            r = sol.run([prev, t])
        elif kind == "interp_now":
            r = (sol.interpolate(t),)
        elif kind == "interp_mid":
            r = (sol.interpolate(0.5 * (t + prev)),)
        elif kind == "interp_prev":
            r = (sol.interpolate(prev),)
        elif kind == "events":
            r = sol.run_events([t + 0.5 * h, t + 1.8 * h], list(evs[:1]))
        elif kind == "events_term":
            r = sol.run_events([t + x * h for x in (0.3, 1.1, 2.2, 3.9)], list(evs[:2]))
        elif kind == "events_unsorted":
            r = sol.run_events([t + x * h for x in (3.9, 0.3, 2.2, 1.1)], list(evs[:2]))
        elif kind == "events_grid":
            r = sol.run_events([t + 0.5 * h, t + 4.3 * h], [evs[2]])
        else:
            sol.skip(n=2)
            r = ()
    flat = []
    for x in r:
        if isinstance(x, list):
            flat.append(x)
            for z in x:
                if isinstance(z, list):
                    flat.append(z)
                    flat.extend(q for q in z if isinstance(q, np.ndarray))
        else:
            flat.append(x)
    return flat


def freeze(x):
    if isinstance(x, list):
        return [freeze(z) for z in x]
    return np.array(x, float, copy=True)


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def scribble(x):
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 7.25e5
    elif isinstance(x, list):
        for i, z in enumerate(x):
            if isinstance(z, (float, int, np.floating)):
                x[i] = -4e7


def history(case, ctx):
    req, mode = ctx.require, ctx.mode
    a, b = lockstep.build(case, mode), lockstep.build(case, mode)
    evs = [events.make("ticks", mode), events.make("clockt" if case["t0"] > 0 else "level", mode, None, True), events.make("grid", mode)]
    kept = []
    tr = lockstep.traj(case, mode)
    # something to look back on
    a.step()
    b.step()
    for k, i in enumerate(case["ops"]):
        kind = CALLS[i]
        prev = tr.t(max(tr.start, tr.index_for(float(a.t)) - 1))
        pa, pb = call(a, kind, prev, evs), call(b, kind, prev, evs)
        label = "call %d (%s) after %s" % (k + 1, kind, [CALLS[j] for j in case["ops"][:k]])
        req(same(pa, pb), "%s returned %s, the twin %s", label, pb, pa)
        for j, x in enumerate(pb):
            kept.append((x, freeze(x), "result %d of %s" % (j, label)))
        if case["write"]:
            for n, (x, _, _) in enumerate(kept):
                if any(x is z for z in pb):
                    scribble(x)
            kept = [(x, freeze(x), w) for x, _, w in kept]
        for x, was, what in kept:
            req(same(x, was), "%s became %s after %s (was %s)", what, x, label, was)
        req(
            float(a.t) == float(b.t) and np.array_equal(a.y, b.y) and np.array_equal(a.f, b.f),
            "%s: the solver is at t=%r y=%s, the undisturbed one at t=%r y=%s", label, float(b.t), b.y, float(a.t), a.y,
        )
        # does one result alias another one?
        ctx.step()
        ctx.state(case["solver"], case["dim"], round(float(a.t), 12), kind, case["write"])
    if case["write"]:
        # write into each in turn; the others stay
        arrays = [x for x, _, _ in kept if isinstance(x, np.ndarray)]
        for i, x in enumerate(arrays):
            x = x
            others = [(z, freeze(z)) for j, z in enumerate(arrays) if j != i and z is not x]
            if x.size and x.flags.writeable:
                x[...] = float(i) + 0.125
            for z, was in others:
                req(same(z, was), "writing into a returned array changed another one")
    t = float(a.t)
    a.step(n=4)
    b.step(n=4)
    for x, was, what in kept:
        if not case["write"]:
            req(same(x, was), "%s became %s after step(n=4) (was %s)", what, x, was)
    req(float(a.t) == float(b.t) and np.array_equal(a.y, b.y), "step(n=4) from t=%r: t=%r y=%s, undisturbed t=%r y=%s", t, float(b.t), b.y, float(a.t), a.y)
    q = 0.5 * (float(a.t) + tr.t(tr.index_for(float(a.t)) - 1))
    req(np.array_equal(a.interpolate(q), b.interpolate(q)), "interpolate(%r) differs from the undisturbed solver", q)
    ctx.trace()


def prhs(t, y, p):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -p[0] * y[i] + p[1] * np.sin(t * p[2] + i)
    return out


_j = {}


def inputs(case, ctx):
    import nbkode

    req, mode, kind = ctx.require, ctx.mode, case["input"]
    cls = getattr(nbkode, case["solver"])
    kw = dict(case.get("kw", {}))
    if case["solver"] in ref.FIXED:
        kw["h"] = case["h"]
    dim, t0 = case["dim"], case["t0"]
    base = problems.y0_of(dim)
    raw = problems.get("U", mode)
    given = []  # (object, copy)

    def watch(x):
        given.append((x, np.array(x, copy=True)))
        return x

    y0 = base.copy()
    params = None
    rhs = raw
    if kind in ("y0", "shared_y0"):
        y0 = watch(base.copy())
    elif kind == "y0_list":
        y0 = watch(list(base))
    elif kind == "y0_view":
        big = np.zeros(3 * dim + 1)
        big[1::3][:dim] = base
        y0 = watch(big[1::3][:dim])
    elif kind.startswith("params"):
        if mode == "jit":
            if "p" not in _j:
                import numba

                _j["p"] = numba.njit(prhs)
            rhs = _j["p"]
        else:
            rhs = prhs
        p = np.array([0.4, 0.9, 2.0])
        if kind == "params_list":
            params = watch(list(p))
        elif kind == "params_view":
            big = np.zeros(9)
            big[::3] = p
            params = watch(big[::3])
        else:
            params = watch(p)
    elif kind == "rhs_buffer":
        f = problems.PROBLEMS["U"]
        buf = np.zeros(dim)

        def rhs(t, y):
            buf[...] = f(t, y)
            return buf

    elif kind == "rhs_self":

        def rhs(t, y):
            return y

    def make(y, p):
        if p is None:
            return cls(rhs, t0, y, **kw)
        return cls(rhs, t0, y, params=p, **kw)

    twin_rhs = rhs
    if kind == "rhs_buffer":
        twin = cls(problems.PROBLEMS["U"], t0, base.copy(), **kw)
    elif kind == "rhs_self":
        twin = cls(lambda t, y: 1.0 * y, t0, base.copy(), **kw)
    else:
        twin = cls(twin_rhs, t0, base.copy(), **({"params": [0.4, 0.9, 2.0]} if params is not None else {}), **kw)
    sol = make(y0, params)
    other = make(y0, params) if kind == "shared_y0" else None

    def inputs_same(label):
        for x, was in given:
            req(np.array_equal(np.asarray(x), was), "%s changed an array that was passed in: %s instead of %s", label, x, was)

    inputs_same("construction")
    if case["write"]:
        for x, _ in given:
            scribble(x)
        given = [(x, np.array(x, copy=True)) for x, _ in given]
    evs = [events.make("ticks", mode), events.make("clockt" if t0 > 0 else "level", mode, None, True)]
    for k in range(3):
        t = float(sol.t)
        h = float(sol.h)
        want = [t + x * h for x in (0.3, 0.3, 1.2, 2.6)]
        if kind == "t_unsorted":
            want = [t + x * h for x in (2.6, 0.3, 1.2, 0.0)]
        if kind == "t_int":
            want = [int(np.ceil(t)) + i for i in (1, 0, 2)]
        arg = watch(np.array(want) if kind != "t_list" else list(want))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind in ("t_term", "events_list"):
                lst = list(evs)
                r = sol.run_events(arg, lst)
                w = twin.run_events(list(want), list(evs))
                req(lst == evs, "run_events changed the list of events")
            else:
                r = sol.run(arg)
                w = twin.run(list(map(float, want)))
        req(same(freeze(list(r)), freeze(list(w))), "run(%s): returned %s instead of %s", want, r, w)
        inputs_same("run(%s)" % want)
        if case["write"]:
            for x, _ in given:
                scribble(x)
            given = [(x, np.array(x, copy=True)) for x, _ in given]
            req(same(freeze(list(r)), freeze(list(w))), "writing into the requested times changed the result")
        a, b = sol.step(), twin.step()
        req(same(list(map(freeze, a)), list(map(freeze, b))), "step: %s instead of %s", a, b)
        inputs_same("step")
        if other is not None and k == 2:
            other.step(n=3)
            inputs_same("step of another solver")
        ctx.step()
        ctx.state(case["solver"], kind, case["write"], round(t, 12))
    req(np.array_equal(sol.y, twin.y) and float(sol.t) == float(twin.t), "ends at t=%r y=%s instead of t=%r y=%s", float(sol.t), sol.y, float(twin.t), twin.y)
    ctx.trace()


def run(case, ctx):
    if "input" in case:
        inputs(case, ctx)
    else:
        history(case, ctx)


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_C
    sub = []
    for c in cases("quick", "jit"):
        if c["dim"] != 2:
            continue
        if "ops" in c and len(c["ops"]) <= 2:
            sub.append(c)
        elif c.get("input") in ("y0", "y0_list", "y0_view", "t_sorted", "t_unsorted", "t_term", "t_int"):
            sub.append(c)
    groups = configs.per_solver(sub, names)
    for n in ("BDF6", "RungeKutta45") if tier == "quick" else configs.REPS:
        groups.append([
            c for c in cases("quick", "jit")
            if c["dim"] == 2 and c["solver"] == n and c.get("input") == "params" and c["write"]
        ])
    return groups
