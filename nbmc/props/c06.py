"""C06: step and skip stop exactly where documented and report every step."""

import itertools

from .. import configs, lockstep, ref

PID = "C06"
RULE = (
    "every solver x {exact, inexact step ends} x every prefix x every pair of limits "
    "(n, upto_t) of step and skip x continuation; lock step with the cursor model"
)
TECHNIQUE = "stateless model checking of the real code: exhaustive call histories in lock step with a cursor model"
NOTE = (
    "Every history of the stated bounds is executed on the real code (uncompiled mode), and all "
    "histories of 8 representative solvers again compiled. Trusts: the reference trajectory obtained by "
    "single-stepping the same code (its values are decided by C01-C04, C10)."
)
ASSUMPTIONS = ["limits up to 8 steps ahead", "reference trajectory: same solver single-stepped"]

NS = (None, 0, 1, 2, 5)
EXACT = (None, "behind", "now", "+0.5", "+1", "+1.5", "+2", "+5", "+7.5", "t0")
LOOSE = (None, "behind", "now", "+0.5", "+1.5", "+2.25", "+7.5", "before")
PRE = (
    [], [("step", None, None)], [("skip", 3, None)], [("run", "+2.5")],
    [("step", None, "+1.5"), ("interpolate", "-0.5")],
)
POST = [("step", None, None), ("skip", None, None), ("step", 2, None)]


def cases(tier, mode):
    out = []
    for name in ref.ALL:
        for cfg, uptos in (
            (configs.dyadic(name), EXACT),
            (configs.free(name, dim=1), LOOSE),
        ):
            if tier == "thorough":
                ops = [(k, n, u) for k in ("step", "skip") for n in NS for u in uptos]
                hist = [[a, b] for a in ops for b in ops]
                hist += [p + [a] for p in PRE for a in ops]
            else:
                hist = [
                    p + [(k, n, u)]
                    for p in PRE
                    for n in NS
                    for u in uptos
                    for k in ("step", "skip")
                ]
                # pairs of calls that stop on a limit
                few = [("step", 2, None), ("step", None, "+1.5"), ("skip", None, "+0.5"),
                       ("step", 3, "+1.5"), ("skip", 0, None), ("step", 1, "+2.25")]
                hist += [list(x) for x in itertools.product(few, repeat=2)]
            for h in hist:
                out.append(dict(cfg, ops=h + POST))
        if name in ref.ADAPTIVE:
            # proposed sizes that turn out too large
            for prob, kw in (
                ("stiff", {"rtol": 1e-4, "atol": 1e-6, "first_step": 0.5}),
                ("pulse", {"rtol": 1e-4, "atol": 1e-6, "first_step": 1.5, "max_step": 1.5}),
                ("clock", {"rtol": 1e-7, "atol": 1e-9, "first_step": 2.0}),
                ("U", {"rtol": 1e-6, "atol": 1e-8, "first_step": 1.0, "max_factor": 1.01, "safety_factor": 0.5}),
            ):
                c = configs.dyadic(name, prob=prob, t0=0.25, kw=kw)
                for pre in [*PRE, [("step", 4, None)], [("skip", 7, None)]]:
                    for n in (None, 1, 2, 3, 5, 20):
                        for u in ("*0.5", "*1", "*1.5", "*2.5", "*4", "*10"):
                            for k in ("step", "skip"):
                                out.append(dict(c, ops=pre + [(k, n, u)] + POST))
        # many steps in one call
        c = configs.dyadic(name, prob="clock")
        out.append(dict(c, ops=[("step", 150, None), ("skip", 149, None), ("step", None, "+40.5")]))
        out.append(dict(c, dim=1, ops=[("skip", None, "+120"), ("step", None, "+33.5")]))
        out.append(dict(c, ops=[("step", 1100, None), ("step", None, "+1.5"), ("skip", 1300, None), ("step", 2, None)]))
        # a limit at time zero, reached from below
        for t0 in (-2.0, 0.0):
            c = configs.dyadic(name, t0=t0)
            for zero in (0.0, -0.0, 0):
                for pre in ([], [("step", None, None)], [("step", 2, None)], [("skip", None, zero)], [("run", "+2.5")], [("step", 8, None)]):
                    for n in NS:
                        for k in ("step", "skip"):
                            out.append(dict(c, ops=pre + [(k, n, zero)] + POST))
    out.sort(key=lambda c: len(c["ops"]))
    return out


def run(case, ctx):
    lockstep.run_history(case, ctx)


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS
    cs = [
        c for c in cases("quick", "jit")
        if c["dim"] == 2 and c["prob"] == "U"
    ]
    return configs.per_solver(cs, names)
