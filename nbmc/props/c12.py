"""C12: terminal events stop the run at the earliest one, losing no requested point."""

import itertools
import warnings

import numpy as np

from .. import configs, events, lockstep, ref

PID = "C12"
TECHNIQUE = "stateless model checking of the real code: all crossing patterns x terminal/non-terminal lists x request sets x orders, against a model of where the run stops and what it returns"
NOTE = (
    "Every table of crossings for one, two and three events with different crossing times inside the same step, every "
    "assignment of terminal flags and list order, request sets around the event (before, at, just after, later, past, "
    "repeated, unsorted) and continuation calls. The model says which times are returned, where the event row goes, what "
    "is reported, and where the solver is left."
)
RULE = "26 solvers x tables {-1,1}^4 per event x flags x lists of 1..3 x 9 request sets x calls; plus state events of 3 problems"
ASSUMPTIONS = ["events that are exactly zero where the call starts are not considered"]

# crossing offsets: the tables are linear, so -1 -> 1 crosses at the middle; -1 -> 3
# at a quarter and -3 -> 1 at three quarters of the step
VALS = (-1, 1)
W = (-3, -1, 1, 3)
TERM = (None, False, True)
REQS = (
    "end", "dense", "before_only", "at", "around", "past", "unsorted", "unsorted_past", "repeated", "scalar",
)


def tables(length, wide=False):
    return [list(t) for t in itertools.product(W if wide else VALS, repeat=length)]


def cases(tier, mode):
    out = []
    th = tier == "thorough"
    for name in ref.ALL:
        c = configs.dyadic(name, prob="units", dim=0)
        rep = name in configs.REPS or th
        for tab in tables(4) + [[-1, 0, 1, 1], [1, 1, 0, -1], [-1, -1, 0, -1], [1, 0, -1, 1], [-1, 0, -1, 1]]:
            for d in (None, 1, -1):
                for r in REQS:
                    for term in (True, False):
                        if not term and (r not in ("end", "unsorted") or not rep):
                            continue
                        out.append(dict(c, tabs=[tab], dirs=[d], term=[term], req=r))
        # two events crossing in the same step, at a different or the same place
        two = [[-1, -1, 1, 1], [-1, -1, 3, 3], [-1, -3, 1, 1], [-1, 1, 1, -1], [-1, 1, -1, 1], [1, 1, 1, -3], [-1, -1, -1, 1], [1, -1, -1, 3], [-1, -1, 0, 1]]
        for a, b in itertools.product(two, repeat=2):
            for ta, tb in itertools.product(TERM[1:], repeat=2):
                if not (ta or tb):
                    continue
                for r in REQS if rep else ("end", "around", "unsorted"):
                    out.append(dict(c, tabs=[a, b], dirs=[None, None], term=[ta, tb], req=r))
        three = [[-1, -3, 1, 1], [-1, -1, 1, 1], [-1, -1, 3, 3], [-1, -1, -1, 1]]
        for tabs in itertools.product(three, repeat=3):
            for term in itertools.product((False, True), repeat=3):
                if sum(term) < 1 or (len({str(t) for t in tabs}) < 3 and not th):
                    continue
                out.append(dict(c, tabs=list(tabs), dirs=[None, 1, None], term=list(term), req="around"))
        for tab in tables(4):
            for bound in (0.25, 0.5, 0.75):
                out.append(dict(c, tabs=[tab], dirs=[None], term=[True], req="dense", b=bound))
    lot = ["tiny", "ticks", "level", "positive", "cross", "clockt", "cubed", "buzz", "huge", "jumpy"]
    for name in ref.ALL:
        for prob, dim in (("U", 2), ("swing", 2), ("clock", 1)):
            for evs, term in (
                (["level"], [True]), (["ticks"], [True]), (["ticks", "level"], [False, True]), (["level", "ticks"], [True, True]),
                (["cross", "ticks"], [True, False]), (["clockt", "ticks", "level"], [True, True, False]), (["buzz", "clockt"], [False, True]),
                (["tiny", "huge"], [True, False]), (["cubed"], [True]), (["positive"], [True]), (["jumpy", "buzz"], [True, False]),
                # many events, one of them terminal
                *(((lot, [j == i for j in range(len(lot))]) for i in range(len(lot)))),
            ):
                for r in ("dense", "around", "unsorted_past", "end"):
                    if len(evs) > 5 and r not in ("around", "unsorted_past"):
                        continue
                    c = configs.free(name, dim=dim, prob=prob, aprob=prob, t0=1.0)
                    out.append(dict(c, smooth=evs, dirs=[None] * len(evs), term=term, req=r))
    out.sort(key=lambda c: len(c["term"]))
    return out


def requests(kind, org, now, te, end, h):
    """Requested times, knowing where the event is (te may be None)."""
    x = te if te is not None else 0.5 * (now + end)
    up = float(np.nextafter(x, np.inf))
    dn = float(np.nextafter(x, -np.inf))
    dense = [now + (end - now) * k / 17 for k in range(1, 18)]
    if kind == "end":
        return [end]
    if kind == "scalar":
        return [end]
    if kind == "dense":
        return dense
    if kind == "before_only":
        return [max(now, x - 0.05), x] if te is not None else [now + 0.01]
    if kind == "at":
        return [max(now, x - 0.01), x, end]
    if kind == "around":
        return [x - 0.6 * (x - now), dn, x, up, x + 0.02, x + 0.02, end]
    if kind == "past":
        return [org, now, now, x - 0.3 * (x - now), up, end]
    if kind == "unsorted":
        return [end, x - 0.5 * (x - now), up, x - 0.2 * (x - now), x + 0.01]
    if kind == "unsorted_past":
        return [up, now, end, org, x - 0.5 * (x - now), x + 0.01, now]
    if kind == "repeated":
        return [x, x, dn, dn, x + 0.01, x + 0.01]
    raise ValueError(kind)


def run(case, ctx):
    mode, req = ctx.mode, ctx.require
    if "tabs" in case:
        y0 = events.table_y0(case)
        names = ["tab0", "tab1", "tab2"][: len(case["tabs"])]
        span = events.H * (len(case["tabs"][0]) - 1)
    else:
        y0 = None
        names = case["smooth"]
        span = 1.7
    st = events.Steps(case, mode, y0)
    base = dict(case, _y0=y0) if y0 is not None else dict(case)
    org = st.ts[0]
    bound = None
    if "b" in case:
        bound = org + case["b"]
    evs = [events.make(n, mode, d, t) for n, d, t in zip(names, case["dirs"], case["term"])]
    lead = 0.1 * span if "past" in case["req"] else 0.0

    def start():
        s = lockstep.build(base, mode, bound=bound)
        i = 0
        if lead:
            s.run(org + lead)
            while st.t(i) < org + lead:
                i += 1
        return s, i

    # where is the earliest terminal event? first pass, checked by itself below
    sol, i0 = start()
    now, end = st.t(i0), org + span
    if bound is not None:
        end = bound
    if "tabs" not in case:
        for n in names:
            if abs(events.FUNCS[n](now, st.ys[i0])) < (1e-14 if n == "tiny" else 1e-9):
                return
    te, istop = find_terminal(case, st, names, i0, end)
    want = requests(case["req"], max(org, now - 0.05), now, te, end, events.H)
    if bound is not None:
        want = [w for w in want if w <= bound] or [bound]
    label = "run_events(%s) from t=%r, terminal event at %r" % (want, now, te)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arg = want[0] if case["req"] == "scalar" else want
        ts, ys, te_l, ye_l = sol.run_events(arg, evs)
    ts = np.asarray(ts, float)
    ys = np.asarray(ys, float)
    # steps needed for the requests
    i1 = i0
    while st.t(i1) < max(want):
        if bound is not None and st.ts[i1] + st.hs[i1] > bound:
            break
        i1 += 1
    stopped = te is not None and istop < i1
    if stopped:
        i1 = istop + 1
    req(abs(float(sol.t) - st.ts[i1]) < 1e-12, "%s: the solver is left at t=%r, expected %r", label, float(sol.t), st.ts[i1])
    req(lockstep.close(sol.y, st.ys[i1]), "%s: the solver is left at y=%s", label, sol.y)
    reach = st.ts[i1]
    req(len(te_l) == len(names) and len(ye_l) == len(names), "%s: %d event lists", label, len(te_l))
    cut = None
    if stopped:
        # the implementation's own time of the earliest terminal event (checked to be
        # a zero below) is what the output is compared with
        mine = [float(t) for t, f in zip([x[-1] if len(x) else np.nan for x in te_l], case["term"]) if f]
        mine = [t for t in mine if t == t and st.ts[istop] <= t <= st.ts[istop + 1]]
        req(mine, "%s: the terminal event is not reported: %s", label, te_l)
        cut = min(mine)
        req(abs(cut - te) <= 1e-8 * events.H + 16 * np.spacing(abs(te)), "%s: stopped at %r", label, cut)
    for k in range(len(names)):
        events.check_reports(
            ctx, st, names[k], case["dirs"][k], i0, i1, te_l[k], ye_l[k], cut, "%s, event %d" % (label, k)
        )
        if stopped:
            req(all(float(t) <= cut for t in te_l[k]), "%s: event %d reported at %s, after the end", label, k, te_l[k])
    # rows
    order = sorted(range(len(want)), key=lambda i: want[i])
    rows = {}
    if not stopped:
        for i in order:
            if want[i] <= reach:
                rows[i] = want[i]
    else:
        for i in order:
            if want[i] <= now or want[i] <= cut:
                rows[i] = want[i]
        rest = [i for i in order if i not in rows]
        have = [want[i] for i in order if i in rows and want[i] > now]
        if rest and not (have and have[-1] == cut):
            rows[rest[0]] = cut
        ctx.outcome("stopped")
    # ties: which of equal requests comes first does not matter
    exp = [rows[i] for i in range(len(want)) if i in rows]
    req(len(ts) == len(exp) and ys.shape[0] == len(exp), "%s: %d times and %s states returned, expected t=%s, got %s", label, len(ts), ys.shape, exp, ts)
    req(bool(np.all(np.abs(ts - exp) <= 0)), "%s: returned t=%s, expected %s", label, ts, exp)
    val = np.array([st.at(x) if x > st.ts[0] else st.ys[0] for x in exp]).reshape(len(exp), st.ys[0].size)
    req(lockstep.close(ys.reshape(val.shape), val, 1e-8, 1e-8), "%s: y=%s instead of %s", label, ys, val)
    ctx.step()
    # the same steps, and the solver can be used on
    ts, ys = sol.step(n=1) if bound is None or reach + st.hs[i1] <= bound else (np.array([]), None)
    if len(ts):
        req(abs(float(ts[0]) - st.t(i1 + 1)) < 1e-12 and lockstep.close(sol.y, st.ys[i1 + 1]), "%s: the next step went to %r", label, float(ts[0]))
    ctx.state(case["solver"], repr(case.get("tabs", names)), repr(case["term"]), case["req"], i1)
    ctx.trace()


def find_terminal(case, st, names, i0, end):
    """(time, step index) of the earliest terminal event up to the step covering end."""
    i = i0
    while st.t(i) < end:
        st.need(i + 1)
        best = None
        for n, d, term in zip(names, case["dirs"], case["term"]):
            if not term:
                continue
            f = events.FUNCS[n]
            v0, v1 = float(f(st.ts[i], st.ys[i])), float(f(st.ts[i + 1], st.ys[i + 1]))
            if not events.triggered(v0, v1, d):
                continue
            t = root(f, st, i, v0, v1)
            if best is None or t < best:
                best = t
        if best is not None:
            return best, i
        i += 1
    return None, None


def root(f, st, j, v0, v1):
    a, b = st.ts[j], st.ts[j + 1]
    if v1 == 0:
        return b
    if v0 == 0:
        return a
    for _ in range(80):
        m = 0.5 * (a + b)
        if m <= a or m >= b:
            break
        v = float(f(m, st.value(m, j)))
        if v == 0:
            return m
        if events.sgn(v) == events.sgn(v0):
            a = m
        else:
            b = m
    return b


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_B
    sub = [c for c in cases("quick", "jit") if ("tabs" in c and len(c["tabs"]) <= 2) or (c.get("smooth") and c["prob"] == "U" and len(c["smooth"]) == 1)]
    return configs.per_solver(sub, names, 800 if tier == "quick" else None)
