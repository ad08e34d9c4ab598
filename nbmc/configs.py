"""Shared solver configurations."""

from . import ref

DYADIC = {"rtol": 1e-2, "atol": 1e-2, "first_step": 0.25, "max_step": 0.25}


def dyadic(name, dim=2, prob="U", t0=1.5, **kw):
    """All step ends are exactly representable: exact hits are meaningful."""
    c = {"solver": name, "prob": prob, "dim": dim, "t0": t0, "h": 0.25}
    if name in ref.ADAPTIVE:
        c["kw"] = dict(DYADIC)
    c.update(kw)
    return c


def free(name, dim=2, prob="U", t0=-2.0, **kw):
    """Inexact step size; adaptive solvers choose theirs (and reject steps)."""
    c = {"solver": name, "prob": prob, "dim": dim, "t0": t0, "h": 0.3}
    if name in ref.ADAPTIVE:
        c["prob"] = kw.pop("aprob", "pulse")
        c["kw"] = {"rtol": 1e-4, "atol": 1e-6}
    c.update(kw)
    return c


# one solver of each code path; used where the compiled run cannot afford all
REPS = (
    "RungeKutta4", "AdamsBashforth3", "AdamsMoulton3", "BDF2",
    "RungeKutta23", "RungeKutta45", "DOP853", "ForwardEuler",
)
REPS_B = (
    "Heun3", "AdamsBashforth5", "AdamsMoulton5", "BDF4",
    "RungeKutta23", "RungeKutta45", "DOP853", "AdamsMoulton1",
)
REPS_C = (
    "RungeKutta3_8", "AdamsBashforth2", "AdamsMoulton2", "BDF6",
    "RungeKutta23", "RungeKutta45", "DOP853", "BackwardEuler",
)
REPS_D = (
    "Runge3", "AdamsBashforth4", "AdamsMoulton4", "BDF3",
    "Runge2", "AdamsBashforth1", "BDF5", "BDF1",
)


def per_solver(cases, names, limit=None):
    """Compiled groups: one process per solver."""
    groups = {n: [] for n in names}
    for c in cases:
        n = c["solver"]
        if n in groups and (limit is None or len(groups[n]) < limit):
            groups[n].append(c)
    return [g for g in groups.values() if g]
