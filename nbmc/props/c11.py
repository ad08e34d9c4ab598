"""C11: every event crossing is reported once, in its step, in order."""

import itertools

import numpy as np

from .. import configs, events, lockstep, ref

PID = "C11"
TECHNIQUE = "stateless model checking of the real code: all sign histories of event functions over a bounded number of steps, times directions, amplitudes, call splits and event lists, against a model of sign changes"
NOTE = (
    "Event functions are tables of {-1,0,1} per step end (scaled by 1e-9..1e9), all tables enumerated, crossed with "
    "direction, solver, requests and splits over calls; plus events of the state of nonlinear problems. The model derives "
    "from the visited steps which ones must report; times must be zeros of the function on an independent interpolant."
)
RULE = "26 solvers x all 3^5 tables x 6 directions; amplitudes; all pairs of tables x orders x directions; all request splits; 10 state events x 3 problems"
ASSUMPTIONS = [
    "a zero exactly where a call starts may or may not be reported by that call",
    "while a function stays at zero, at most one report per step",
]

DIRS = (None, 1, -1, 0, 0.5, -2.7)
SIGNS = (-1, 0, 1)
REQ = {
    "end": ["+end"],
    "many": [0.1, 0.25, 0.3, 0.3, 0.6, 0.74, 1.0],
    "unsorted": [0.9, 0.1, 0.5, 0.25],
    "past": [-0.1, 0.0, 0.6, 1.0],
}


def cases(tier, mode):
    out = []
    length = 5 if tier == "quick" else 6
    for name in ref.ALL:
        c = configs.dyadic(name, prob="units", dim=0)
        for tab in itertools.product(SIGNS, repeat=length):
            if tier == "quick" and 0 in tab[:1] and tab[1] == 0:
                continue
            for d in DIRS if tier == "thorough" else DIRS[: (6 if sum(tab) % 2 else 3)]:
                out.append(dict(c, tabs=[list(tab)], dirs=[d]))
        # amplitudes
        for tab in itertools.product((-1, 1), repeat=4):
            for amp in (-300, -13, -9, -3, 3, 9, 13, 200):
                out.append(dict(c, tabs=[list(tab)], dirs=[None], amp=amp))
        # requests and splits
        for tab in itertools.product(SIGNS, repeat=4):
            for r in ("many", "unsorted", "past"):
                if tier == "thorough" or (sum(tab) + len(r)) % 2 == 0:
                    out.append(dict(c, tabs=[list(tab)], dirs=[(None, 1, -1)[sum(tab) % 3]], req=r))
        for tab in itertools.product((-1, 0, 1), repeat=4):
            for cut in (0.25, 0.3, 0.5, 0.6, "each", "half"):
                if tier == "thorough" or (sum(tab) + len(str(cut))) % 2 == 0:
                    out.append(dict(c, tabs=[list(tab)], dirs=[None], cut=cut))
    pairs = list(itertools.product(itertools.product((-1, 1), repeat=4), itertools.product(SIGNS, repeat=4)))
    for name in ref.ALL:
        c = configs.dyadic(name, prob="units", dim=0)
        for i, (a, b) in enumerate(pairs):
            if b[0] == 0:
                continue
            for j, (da, db) in enumerate(itertools.product((None, 1, -1), repeat=2)):
                if tier == "quick" and (i + 3 * j + len(name)) % (9 if name in configs.REPS else 36):
                    continue
                out.append(dict(c, tabs=[list(a), list(b)], dirs=[da, db], req="many" if j % 2 else "end"))
        for i, (a, b, d) in enumerate(itertools.product(itertools.product((-1, 1), repeat=3), repeat=3)):
            if tier == "thorough" or i % 8 == len(name) % 8:
                out.append(dict(c, tabs=[list(a), list(b), list(d)], dirs=[None, 1, -1]))
    smooth = [n for n in events.FUNCS if not n.startswith("tab") and n not in ("late", "faint", "grid")]
    for name in ref.ALL:
        # short steps late in time: events closer together than any relative
        # tolerance on the time
        for t0 in (0.0, 2.0**13, 2.0**20, -(2.0**20), 2.0**28, -(2.0**28)):
            h = 2.0**-10
            for prob, dim in (("clock", 1), ("U", 2)):
                c = configs.dyadic(name, prob=prob, dim=dim, t0=t0, h=h)
                if name in ref.ADAPTIVE:
                    c["kw"] = {"rtol": 1e-2, "atol": 1e-2, "first_step": h, "max_step": h}
                for d in (None, 1, -1):
                    out.append(dict(c, smooth=["late"], dirs=[d], cuts=[7.25 * h, 8 * h], len=20 * h))
                out.append(dict(c, smooth=["late", "positive", "late"], dirs=[1, None, -1], cuts=[], len=20 * h))
        probs = [("U", 2), ("swing", 2), ("clock", 1), ("pulse", 1)]
        for prob, dim in probs:
            for ev in smooth:
                for d in (None, 1, -1):
                    for cut in ([], [0.9], [0.5, 1.1, 1.13]):
                        c = configs.free(name, dim=dim, prob=prob, aprob=prob, t0=1.0)
                        out.append(dict(c, smooth=[ev], dirs=[d], cuts=cut))
            for evs in (["ticks", "level"], ["level", "ticks", "cross"], ["buzz", "tiny", "huge", "cubed"], ["positive", "clockt"]):
                c = configs.free(name, dim=dim, prob=prob, aprob=prob, t0=1.0)
                out.append(dict(c, smooth=evs, dirs=[None] * len(evs), cuts=[0.7]))
        # many events, and events that fire many times
        c = configs.free(name, dim=2, prob="U", aprob="U", t0=1.0)
        lot = ["tiny", "ticks", "level", "positive", "cross", "clockt", "cubed", "buzz", "huge", "ticks", "jumpy", "buzz"]
        for d in (None, 1, -1):
            out.append(dict(c, smooth=lot, dirs=[d] * len(lot), cuts=[0.7]))
        c = configs.free(name, dim=2, prob="clock", aprob="clock", t0=1.0)
        for d in (None, 1, -1):
            out.append(dict(c, smooth=["ticks", "buzz"], dirs=[d, None], cuts=[], len=90.0))
        out.append(dict(c, smooth=["ticks"], dirs=[None], cuts=[0.11 * i for i in range(1, 120)], len=14.0))
        for form in ("callable", "tuple", "list", "none", "empty"):
            out.append(dict(configs.free(name, dim=2, prob="swing", aprob="swing", t0=1.0), smooth=["ticks"], dirs=[None], cuts=[], form=form))
    out.sort(key=lambda c: (len(c.get("tabs", [0] * 2)), "smooth" in c))
    return out


def run(case, ctx):
    mode, req = ctx.mode, ctx.require
    if "tabs" in case:
        y0 = events.table_y0(case)
        names = ["tab0", "tab1", "tab2"][: len(case["tabs"])]
        org_len = events.H * (len(case["tabs"][0]) - 1)
    else:
        y0 = None
        names = case["smooth"]
        org_len = case.get("len", 2.0)
    st = events.Steps(case, mode, y0)
    base = dict(case, _y0=y0) if y0 is not None else case
    sol = lockstep.build(base, mode)
    org = float(sol.t)
    # the calls: lists of requested times
    if "cut" in case:
        c = case["cut"]
        if c == "each":
            calls = [[org + events.H * (i + 1)] for i in range(len(case["tabs"][0]) - 1)]
        elif c == "half":
            calls = [[org + 0.5 * events.H * (i + 1)] for i in range(2 * (len(case["tabs"][0]) - 1))]
        else:
            calls = [[org + c], [org + org_len]]
    elif "cuts" in case:
        calls = [[org + x] for x in case["cuts"]] + [[org + org_len]]
    else:
        r = case.get("req", "end")
        calls = [[org + org_len]] if r == "end" else [[org + x * org_len for x in REQ[r]]]
        if r == "past":
            # needs a history
            calls = [[org + 0.1 * org_len]] + calls
            calls[1][0] = org + 0.05 * org_len
            calls[1][1] = org + 0.1 * org_len
    evs = [events.make(n, mode, d) for n, d in zip(names, case["dirs"])]
    form = case.get("form", "list")
    arg = {"callable": lambda: evs[0], "tuple": lambda: tuple(evs), "list": lambda: evs, "none": lambda: None, "empty": lambda: []}[form]()
    i0 = 0
    for want in calls:
        now = st.t(i0)
        label = "run_events(%s) from t=%r" % (want, now)
        r = sol.run_events(want if len(want) > 1 else want[0], arg)
        req(len(r) == 4, "%s returned %d things", label, len(r))
        ts, ys, te, ye = r
        i1 = i0
        while st.t(i1) < max(want):
            i1 += 1
        req(float(sol.t) == st.ts[i1] or abs(float(sol.t) - st.ts[i1]) < 1e-12, "%s ends at t=%r, expected %r", label, float(sol.t), st.ts[i1])
        req(lockstep.close(sol.y, st.ys[i1]), "%s ends at y=%s, expected %s", label, sol.y, st.ys[i1])
        req(lockstep.close(ts, want), "%s returned t=%s", label, ts)
        exp = np.array([st.at(x) if x > st.ts[0] else st.ys[0] for x in want])
        req(lockstep.close(ys, exp, 1e-8, 1e-8), "%s returned y=%s instead of %s", label, ys, exp)
        n = 0 if form in ("none", "empty") else len(evs)
        req(len(te) == n and len(ye) == n, "%s: %d events, %d and %d lists", label, n, len(te), len(ye))
        for k in range(n):
            events.check_reports(ctx, st, names[k], case["dirs"][k], i0, i1, te[k], ye[k], None, "%s, event %d" % (label, k))
        ctx.step()
        ctx.state(case["solver"], repr(case.get("tabs", names)), repr(case["dirs"]), i1)
        i0 = i1
    ctx.trace()


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS
    sub = [
        c for c in cases("quick", "jit")
        if ("tabs" in c and len(c["tabs"]) == 1 and c["dirs"][0] in (None, 1, -1))
        or ("tabs" in c and len(c["tabs"]) == 2)
        or ("smooth" in c and c["prob"] == "U" and c["dim"] == 2 and c["dirs"][0] in (None, 1))
    ]
    # every dimension and number of events compiles again
    keep = []
    for c in sub:
        if "smooth" in c and len(c["smooth"]) > 1 and tier == "quick":
            continue
        keep.append(c)
    return configs.per_solver(keep, names, 900 if tier == "quick" else None)
