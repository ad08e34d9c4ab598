"""C08: run returns the solution at exactly the requested times, in request order."""

import itertools

import numpy as np

from .. import configs, lockstep, problems, ref

PID = "C08"
TECHNIQUE = "stateless model checking of the real code: all request sequences up to a length, all orders and all ways to spread them over calls, in lock step with a cursor model"
NOTE = (
    "The model's value at a time is what a fresh, single-stepped solver interpolates there; it depends on the time only. "
    "Enumerated: all sequences (with repetitions, any order) of times on, between, before and beyond step ends; all "
    "compositions of a request over successive calls; all accepted forms of the argument."
)
RULE = "26 solvers x 2-3 problems x 2 positions x all sequences up to length 3 (quick) / 4 (thorough) of 9 times; all 2^(n-1) splits; all forms"
ASSUMPTIONS = [
    "times older than the history of the method may be refused or answered (correctly)",
    "empty requests are not considered",
]

TIMES = ("-0.5", "now", "+0.5", "+1", "+1.25", "+1.75", "+3", "+5.5", "-1")
FORMS = ("list", "tuple", "ilist", "i32", "i64", "f32", "strided", "reversed_view", "scalar", "npscalar", "zerod", "intscalar")


def configurations(name):
    out = [configs.dyadic(name), configs.free(name, dim=1 if name in ref.FIXED else 2)]
    if name in ref.ADAPTIVE:
        out.append(configs.free(name, dim=2, aprob="U"))
    return out


def splits(seq):
    n = len(seq)
    for mask in range(2 ** (n - 1)):
        out, cur = [], [seq[0]]
        for i in range(1, n):
            if mask >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(seq[i])
        out.append(cur)
        yield out


def cases(tier, mode):
    out = []
    depth = 3 if tier == "quick" else 4
    for name in ref.ALL:
        for ci, c in enumerate(configurations(name)):
            for pre in (0, 7):
                prefix = [["step", pre, None]] if pre else []
                times = TIMES if pre else [s for s in TIMES if not s.startswith("-")]
                for d in range(1, depth + 1):
                    if d == depth and ci == 1 and tier == "quick" and name in ref.FIXED and pre:
                        continue
                    for seq in itertools.product(times, repeat=d):
                        out.append(dict(c, ops=prefix + [["run", list(seq)]]))
                # the same times, spread over calls in every way; absolute times
                # are needed because positions move
                for seq in (
                    [0.25, 0.5, 0.5, 1.1, 2.6],
                    [0.6, 0.2, 1.4, 1.4, 0.9],
                    [2.0, 0.1, 0.3, 2.1, 0.25],
                ):
                    for s in splits(seq):
                        out.append(dict(c, pre=pre, split=s))
                for form in FORMS:
                    out.append(dict(c, pre=pre, form=form))
                out.append(dict(c, ops=prefix + [["run", ["before", "+1"]], ["run", "before"], ["run", ["+1", "before"]], ["run", ["t0"]]]))
                # dense and sparse requests, long runs
                out.append(dict(c, ops=prefix + [["run", ["+%r" % (0.125 * i) for i in range(60)]]]))
                if ci == 0 and not pre:
                    out.append(dict(c, ops=[["run", ["+%r" % (0.25 * i) for i in range(700)]], ["run", ["+0.5", "+0.25"]]]))
                    out.append(dict(c, ops=[["run", ["+%r" % (0.25 * ((i * 37) % 300)) for i in range(600)]], ["run", ["now"]]]))
                out.append(dict(c, ops=prefix + [["run", ["+40.5"]], ["run", ["-0.5", "+0.5"]], ["run", ["+0.25"]]]))
                out.append(dict(c, ops=prefix + [["run", ["+%r" % (7.0 - 0.5 * i) for i in range(14)]], ["run", "now"]]))
    out.sort(key=lambda c: sum(len(o[1]) if isinstance(o[1], list) else 1 for o in c.get("ops", [])))
    return out


def run(case, ctx):
    mode = ctx.mode
    if "ops" in case:
        lockstep.run_history(case, ctx)
        return
    base = {k: v for k, v in case.items() if k not in ("pre", "split", "form")}
    tr = lockstep.traj(base, mode)
    sol = lockstep.build(base, mode)
    m = lockstep.Model(tr)
    if case["pre"]:
        sol.step(n=case["pre"])
        m.step(case["pre"])
    if "split" in case:
        org = m.t
        for part in case["split"]:
            want = [org + x for x in part]
            before = m.i
            exp = m.run(want)
            if exp[0] == "exc":
                m.i = before
            args = ("run", want if len(want) > 1 else want[0])
            got = lockstep.execute(sol, args, mode)
            lockstep.compare(exp, got, args, sol, m, before, ctx, "run(%s)" % want)
            ctx.step()
            ctx.state(base["solver"], base["prob"], tr.dim, m.i, tuple(want))
        ctx.trace()
        return
    form = case["form"]
    a = int(np.floor(m.t)) + 1
    vals = [a + 2, a, a, a + 1]
    if form == "list":
        arg = [float(v) for v in vals]
    elif form == "tuple":
        arg = tuple(float(v) for v in vals)
    elif form == "ilist":
        arg = list(vals)
    elif form == "i32":
        arg = np.array(vals, np.int32)
    elif form == "i64":
        arg = np.array(vals, np.int64)
    elif form == "f32":
        arg = np.array(vals, np.float32)
    elif form == "strided":
        arg = np.repeat(np.array(vals, float), 2)[::2]
    elif form == "reversed_view":
        vals = sorted(vals)
        arg = np.array(vals[::-1], float)[::-1]
    else:
        vals = [a + 1]
        arg = {"scalar": float(a + 1), "npscalar": np.float64(a + 1), "zerod": np.array(a + 1.0), "intscalar": a + 1}[form]
    keep = np.array(arg, copy=True)
    exp = m.run([float(v) for v in vals])
    ts, ys = sol.run(arg)
    ctx.require(np.array_equal(keep, np.asarray(arg)), "run(%s) changed its argument to %s", keep, arg)
    lockstep.compare(exp, ("ok", ts, ys), ("run", vals), sol, m, 0, ctx, "run(%s as %s)" % (vals, form))
    ctx.require(np.asarray(ts).dtype == float, "times of type %s", np.asarray(ts).dtype)
    ctx.step()
    ctx.trace()
    ctx.state(base["solver"], base["prob"], form, m.i)


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_B
    sub = [c for c in cases("quick", "jit") if c["prob"] == "U" and c["dim"] == 2 and len(c.get("ops", [])) != 1]
    return configs.per_solver(sub, names, 700)
