"""C05: the trajectory does not depend on how the integration is chopped up."""

import itertools

from .. import configs, lockstep, ref

PID = "C05"
TECHNIQUE = "stateless model checking of the real code: all call histories up to a depth in lock step with a cursor model of the trajectory"
NOTE = (
    "After every call of every history the solver must be at the time, state and derivative that plain "
    "single-stepping visits, and every reported value must be the one a fresh, single-stepped solver reports. "
    "Uncompiled for all solvers, compiled for 8."
)
RULE = "26 solvers x {exact, inexact, rejected steps} x all histories of the alphabet up to depth 3 (quick) / 4 (thorough), plus long periodic histories"
ASSUMPTIONS = ["single-stepping is the reference; its steps are decided by C01 and C10"]

OPS = (
    ("step", None, None),
    ("step", 2, None),
    ("skip", None, "+1.5"),
    ("step", None, "+2.25"),
    ("skip", 1, None),
    ("run", "+0.5"),
    ("run", ["+1.5", "+0.25", "-0.5"]),
    ("events", ["+0.75", "+2.5"]),
    ("interpolate", "-0.5"),
    ("interpolate", "+0.5"),
    ("run", ["before", "+1"]),
    ("run", ["now"]),
    ("events", "+0.25"),
    ("skip", 3, "behind"),
)


def cases(tier, mode):
    out = []
    n = len(OPS)
    hist = [h for d in (1, 2) for h in itertools.product(range(n), repeat=d)]
    core = (0, 2, 3, 5, 6, 7, 8)
    if tier == "thorough":
        hist += list(itertools.product(range(n), repeat=3))
        hist += list(itertools.product(core, repeat=4))
    else:
        hist += list(itertools.product(core, repeat=3))
    longs = [(5,) * 30, (6, 0) * 15, (7, 8) * 15, (2, 6, 3) * 10, (8, 0) * 20, (12, 5, 8) * 12]
    for name in ref.ALL:
        cfgs = [configs.dyadic(name), configs.free(name, dim=1)]
        if name in ref.ADAPTIVE:
            cfgs.append(configs.free(name, dim=2, aprob="U"))
        for c in cfgs:
            for h in hist:
                out.append(dict(c, ops=[OPS[i] for i in h] + [("step", None, None)]))
            for h in longs:
                out.append(dict(c, prob="clock" if c["prob"] == "U" else c["prob"], ops=[OPS[i] for i in h]))
    out.sort(key=lambda c: len(c["ops"]))
    return out


def run(case, ctx):
    lockstep.run_history(case, ctx)


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS_C
    sub = [c for c in cases("quick", "jit") if c["prob"] == "U" and c["dim"] == 2]
    return configs.per_solver(sub, names, 450 if tier == "quick" else None)
