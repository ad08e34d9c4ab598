"""C17: the solver catalogue is truthful and complete."""

import importlib
import itertools
import os
import pickle
import warnings

import numpy as np

from .. import ref
from ..engine import Violation

PID = "C17"
TECHNIQUE = "exhaustive enumeration of catalogue queries (all group subsets x filter values, all names x letter cases, all registration sequences up to a depth) on the real code against a reference catalogue and observed behaviour of each solver"
NOTE = (
    "The reference catalogue (26 solvers, their families, and whether their formula uses the derivative at the new time) is "
    "written independently; in addition each solver is executed on a right-hand side that switches right after the current "
    "time, which only an implicit formula follows, and on one that forces adaptation, which only variable-step solvers follow. "
    "Registration histories run in a forked child each, so that they do not see each other."
)
RULE = (
    "all 32 subsets of the 5 groups (3 spellings, 2 orders) x 3^4 filter values; 27 names x 6 spellings x 3 ways to reach them; "
    "all edits of a name by one character as unknown names; all registration sequences of up to 2 (quick) / 3 (thorough) of 15 definitions, 9 of them refused at some point"
)
ASSUMPTIONS = ["the methods of the Euler group count as multistep (they are one-step members of the Adams families in this package)"]

GROUPS = {
    "Adams-Bashforth": ["AdamsBashforth%d" % k for k in range(1, 6)],
    "Adams-Moulton": ["AdamsMoulton%d" % k for k in range(1, 6)],
    "BDF": ["BDF%d" % k for k in range(1, 7)],
    "Euler": ["ForwardEuler", "BackwardEuler"],
    "Runge-Kutta": list(ref.RK),
}
ALIAS = {"Euler": "ForwardEuler"}
SPELL = ("same", "lower", "upper", "title", "swap", "alternate")
TRI = (None, True, False)


def spell(s, how):
    return {
        "same": s,
        "lower": s.lower(),
        "upper": s.upper(),
        "title": s.title(),
        "swap": s.swapcase(),
        "alternate": "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s)),
    }[how]


def expected(groups, implicit, fixed, rk, ms):
    out = set()
    for g in groups or GROUPS:
        for n in GROUPS[g]:
            if implicit is not None and (n in ref.IMPLICIT) != implicit:
                continue
            if fixed is not None and (n in ref.FIXED) != fixed:
                continue
            if rk is not None and (n in ref.RK) != rk:
                continue
            if ms is not None and (n in ref.MULTI) != ms:
                continue
            out.add(n)
    return out


# user definitions: (kind, name, aliases, group)
DEFS = (
    ("ab", "Mine", (), "Adams-Bashforth"),
    ("ab", "mine", (), "New"),
    ("ab", "Other", ("MINE",), "New"),
    ("am", "Third", ("T3", "Fourth"), "new"),
    ("am", "euler", (), "New"),
    ("ab", "bdf1", (), "New"),
    ("am", "Fifth", ("dop853",), "BDF"),
    ("am", "fourth", (), "runge-kutta"),
    ("abstract", "Base", (), "Abstract"),
    ("rk", "Sixth", (), "Euler"),
    # refused
    ("ab", "Seventh", ("S7", "sEVENTH"), "New7"),
    ("history", "Eighth", ("S8",), "New8"),
    ("fraction", "Ninth", ("S9",), "New9"),
    ("upper", "Tenth", ("S10",), "New10"),
    ("builder", "Eleventh", ("S11",), "New11"),
)
REFUSED = ("history", "fraction", "upper", "builder")


def no_formula(cls):
    raise NotImplementedError("no formula")



def cases(tier, mode):
    out = []
    for r in range(len(GROUPS) + 1):
        for sub in itertools.combinations(sorted(GROUPS), r):
            for how in ("same", "lower", "upper"):
                for rev in (False, True):
                    if r < 2 and rev:
                        continue
                    out.append({"kind": "filter", "groups": list(sub), "spell": how, "rev": rev})
    for n in list(ref.ALL) + list(ALIAS):
        for how in SPELL:
            out.append({"kind": "name", "name": n, "spell": how})
        out.append({"kind": "near", "name": n})
    for n in ref.ALL:
        out.append({"kind": "behaviour", "name": n})
    for g in GROUPS:
        out.append({"kind": "neargroup", "name": g})
    out.append({"kind": "lists"})
    depth = 3 if tier == "thorough" else 2
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(DEFS)), repeat=d):
            out.append({"kind": "register", "seq": list(seq)})
    return out


def run_filter(nbkode, case, ctx):
    groups = list(case["groups"])
    if case["rev"]:
        groups.reverse()
    args = [spell(g, case["spell"]) for g in groups]
    if case["groups"]:
        # order of the groups is the order of the output
        parts = [nbkode.get_solvers(a) for a in args]
        ctx.require(
            tuple(nbkode.get_solvers(*args)) == tuple(s for p in parts for s in p),
            "get_solvers%r is not the concatenation of its groups", tuple(args),
        )
    for flags in itertools.product(TRI, repeat=4):
        kw = dict(zip(("implicit", "fixed_step", "runge_kutta", "multistep"), flags))
        given = {k: v for k, v in kw.items() if v is not None}
        ctx.step()
        for k in (kw, given):
            got = nbkode.get_solvers(*args, **k)
            ctx.require(isinstance(got, tuple), "get_solvers returned %s", type(got).__name__)
            names = [s.__name__ for s in got]
            ctx.require(len(names) == len(set(names)), "get_solvers(%s, %s) repeats: %s", args, k, names)
            exp = expected(case["groups"], *flags)
            ctx.require(
                set(names) == exp,
                "get_solvers(%s, %s): missing %s, unexpected %s", args, k, sorted(exp - set(names)), sorted(set(names) - exp),
            )
        for s in got:
            ctx.require(s is getattr(nbkode, s.__name__), "%s is not the package attribute", s)
        ctx.state("filter", tuple(args), flags)
        # an unknown group next to known ones is refused, whatever the filters
        for pos in (0, len(args)):
            bad = args[:pos] + ["nope"] + args[pos:]
            try:
                nbkode.get_solvers(*bad, **kw)
                ctx.require(False, "get_solvers(%s, %s) accepted an unknown group", bad, kw)
            except KeyError:
                pass
    ctx.trace()


MODULE_OF = {
    "AdamsBashforth": "nbkode.multistep.adams_bashforth",
    "AdamsMoulton": "nbkode.multistep.adams_moulton",
    "BDF": "nbkode.multistep.bdf",
}


def run_name(nbkode, case, ctx):
    n = case["name"]
    true = ALIAS.get(n, n)
    w = spell(n, case["spell"])
    s = nbkode.get_solver(w)
    ctx.step(2)
    ctx.require(isinstance(s, type) and s.__name__ == true, "get_solver(%r) is %r", w, s)
    ctx.require([g for g in GROUPS if s in nbkode.get_solvers(g)] == [g for g in GROUPS if true in GROUPS[g]], "%s is not in its group", true)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        a = getattr(nbkode, w)
        # the name of a submodule or function of the package wins over the alias
        if not isinstance(a, type):
            ctx.require(w == "euler", "nbkode.%s is %r", w, a)
        else:
            ctx.require(a is s, "nbkode.%s is %r, get_solver gives %r", w, a, s)
            ctx.require(
                (len(rec) > 0) == (w != true), "nbkode.%s: %d warnings", w, len(rec),
            )
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ns = {}
        exec("from nbkode import %s as x" % w, ns)
        ctx.require(ns["x"] is a, "from nbkode import %s gives %r", w, ns["x"])
    ctx.require(repr(s) == "<%s>" % true, "repr of %s is %r", true, repr(s))
    ctx.state("name", w)
    ctx.trace()


def unknown(nbkode, ctx, bad, known):
    try:
        s = nbkode.get_solver(bad)
        ctx.require(False, "get_solver(%r) returned %r", bad, s)
    except ValueError as e:
        for n in known:
            ctx.require(n in str(e), "the message for %r does not list %s", bad, n)
    if bad.isidentifier() and not hasattr(importlib.import_module("builtins"), bad):
        try:
            s = getattr(nbkode, bad)
            ctx.require(not isinstance(s, type), "nbkode.%s is %r", bad, s)
        except AttributeError:
            pass
    ctx.step(2)


def run_near(nbkode, case, ctx):
    n = case["name"]
    valid = {x.lower() for x in list(ref.ALL) + list(ALIAS)}
    bads = {n[:i] + n[i + 1 :] for i in range(len(n))}
    bads |= {n[:i] + c + n[i:] for i in range(len(n) + 1) for c in "_x1 "}
    bads |= {n[:i] + c + n[i + 1 :] for i in range(len(n)) for c in "_x9"}
    for b in sorted(bads):
        if b.lower() not in valid:
            unknown(nbkode, ctx, b, ref.ALL)
            ctx.state("near", b)
    for b in ("", "Solver", "get_solver", "Multistep", "RungeKutta", "BDF7", "BDF0", "AdamsBashforth6", "AdamsMoulton6"):
        unknown(nbkode, ctx, b, ref.ALL)
    ctx.trace()


def run_neargroup(nbkode, case, ctx):
    n = case["name"]
    valid = {x.lower() for x in GROUPS}
    bads = {n[:i] + n[i + 1 :] for i in range(len(n))} | {n + "x", n + " ", " " + n, "", "Multistep", n.replace("-", "_"), n.replace("-", "")}
    for b in sorted(bads):
        if b.lower() in valid:
            continue
        try:
            r = nbkode.get_solvers(b)
            ctx.require(False, "get_solvers(%r) returned %r", b, r)
        except KeyError as e:
            for g in GROUPS:
                ctx.require(g in str(e), "the message for group %r does not list %s", b, g)
        ctx.step()
        ctx.state("neargroup", b)
    ctx.trace()


def check_lists(nbkode, ctx, groups, alias):
    names = [n for g in groups.values() for n in g]
    ctx.require(tuple(nbkode.get_groups()) == tuple(sorted(groups)), "get_groups() is %s", nbkode.get_groups())
    got = nbkode.list_solvers(include_alias=False)
    ctx.require(sorted(got) == sorted(names), "list_solvers(include_alias=False): %s", sorted(set(got) ^ set(names)))
    exp = names + ["%s (alias of %s)" % (a, n) for a, n in alias.items()]
    got = nbkode.list_solvers()
    ctx.require(sorted(got) == sorted(exp), "list_solvers(): %s", sorted(set(got) ^ set(exp)))
    got = nbkode.list_solvers("{name}|{cls.__name__}", "{cls.__name__}<-{name}")
    exp = ["%s|%s" % (n, n) for n in names] + ["%s<-%s" % (n, a) for a, n in alias.items()]
    ctx.require(sorted(got) == sorted(exp), "list_solvers with formats: %s", sorted(set(got) ^ set(exp)))
    ctx.step(4)


def run_lists(nbkode, case, ctx):
    for _ in range(2):
        check_lists(nbkode, ctx, GROUPS, ALIAS)
        d = dir(nbkode)
        for n in list(ref.ALL) + ["get_groups", "get_solvers", "get_solver"]:
            ctx.require(d.count(n) == 1, "%s appears %d times in dir(nbkode)", n, d.count(n))
        for n in d:
            ctx.require(hasattr(nbkode, n), "dir(nbkode) has %s, the package does not", n)
        d.append("broken")
        got = nbkode.list_solvers()
        got.clear()
        # one failed lookup must not change the next listing
        try:
            nbkode.get_solver("nope")
        except ValueError:
            pass
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                nbkode.nope
            except AttributeError:
                pass
    ctx.state("lists")
    ctx.trace()


def run_behaviour(nbkode, case, ctx):
    """What the flags say is what the solver does."""
    n = case["name"]
    cls = nbkode.get_solver(n)
    ctx.require(cls.IMPLICIT is (n in ref.IMPLICIT), "%s.IMPLICIT is %r", n, cls.IMPLICIT)
    ctx.require(cls.FIXED_STEP is (n in ref.FIXED), "%s.FIXED_STEP is %r", n, cls.FIXED_STEP)
    switch = [np.inf]

    def rhs(t, y):
        return -2.0e3 * (y - (1.0 if t <= switch[0] else 2.0))

    for dim in (1, 2):
        switch[0] = np.inf
        sol = cls(rhs, 0.0, np.ones(dim), h=0.5) if n in ref.FIXED else None
        if sol is None:
            break
        switch[0] = float(sol.t)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ts, ys = sol.step()
        close = bool(np.all(np.abs(np.asarray(ys)[-1] - 2.0) < 0.1))
        ctx.step(2)
        ctx.require(
            close == cls.IMPLICIT,
            "%s (IMPLICIT=%s): right after a stiff right-hand side switches from 1 to 2 the state is %s", n, cls.IMPLICIT, ys,
        )

    def rough(t, y):
        return np.cos(9.0 * t) * (1.0 + 40.0 * np.exp(-((t - 0.5) ** 2) * 100.0)) + 0.0 * y

    kw = {"h": 0.125} if n in ref.FIXED else {"first_step": 0.125, "rtol": 1e-6, "atol": 1e-8}
    sol = cls(rough, 0.0, np.ones(1), **kw)
    t = [float(sol.t)] + [float(x) for x in sol.step(n=24)[0]]
    d = np.diff(t)
    same = bool(np.all(np.abs(d - 0.125) < 1e-12))
    ctx.require(same == cls.FIXED_STEP, "%s (FIXED_STEP=%s): steps %s", n, cls.FIXED_STEP, d[:6].tolist())
    ctx.state("behaviour", n)
    ctx.trace()


def _registered(nbkode, seq, ctx):
    groups = {g: list(v) for g, v in GROUPS.items()}
    alias = dict(ALIAS)
    taken = {x.lower() for x in list(ref.ALL) + list(ALIAS)}
    from nbkode.multistep.adams_bashforth import AdamsBashforth2
    from nbkode.multistep.adams_moulton import AdamsMoulton2

    mk = type(AdamsBashforth2)
    base = {"ab": AdamsBashforth2, "am": AdamsMoulton2, "rk": nbkode.RungeKutta4, "abstract": AdamsMoulton2}
    base.update(history=AdamsBashforth2, fraction=AdamsMoulton2, upper=nbkode.RungeKutta4, builder=nbkode.RungeKutta4)
    extra = {
        "history": {"LEN_HISTORY": 1},
        "fraction": {"LEN_HISTORY": 2.5},
        "upper": {"A": np.triu(np.ones((4, 4)))},
        "builder": {"_fixed_step_builder": classmethod(no_formula)},
    }
    implicit = set(ref.IMPLICIT)
    rk, ms = set(ref.RK), set(ref.MULTI)
    refused = False
    for i in seq:
        kind, name, al, group = DEFS[i]
        fails = False
        if kind != "abstract":
            low = [x.lower() for x in (name,) + al]
            fails = any(x in taken for x in low) or len(set(low)) < len(low) or kind in REFUSED
        try:
            kw = {"abstract": True} if kind == "abstract" else {}
            c = mk(name, (base[kind],), {"ALIASES": al, "GROUP": group, "__module__": "user", **extra.get(kind, {})}, **kw)
            ctx.require(not fails, "%s definition %s %s was registered although it is not acceptable", kind, name, al)
        except Violation:
            raise
        except Exception as e:
            ctx.require(fails, "registering %s %s failed: %s", name, al, e)
            refused = True
            # nothing of it is left
            check_lists(nbkode, ctx, groups, alias)
            for x in low:
                if x not in taken:
                    unknown(nbkode, ctx, x, ())
            for g in groups:
                got = sorted(s.__name__ for s in nbkode.get_solvers(g))
                ctx.require(got == sorted(groups[g]), "after %s: get_solvers(%r) is %s", seq, g, got)
            continue
        ctx.step()
        if kind == "abstract":
            continue
        taken |= {x.lower() for x in (name,) + al}
        g = next((x for x in groups if x.lower() == group.lower()), None)
        if g is None:
            g = group
            groups[g] = []
        groups[g].append(name)
        for a in al:
            alias[a] = name
        if kind == "am":
            implicit.add(name)
        (rk if kind == "rk" else ms).add(name)
        for x in (name,) + al:
            for how in SPELL:
                ctx.require(nbkode.get_solver(spell(x, how)) is c, "get_solver(%r) is not the new solver", spell(x, how))
        check_lists(nbkode, ctx, groups, alias)
        for g in groups:
            for flags in itertools.product(TRI, repeat=4):
                kw = dict(zip(("implicit", "fixed_step", "runge_kutta", "multistep"), flags))
                got = sorted(s.__name__ for s in nbkode.get_solvers(g.upper(), **kw))
                exp = sorted(
                    n for n in groups[g]
                    if flags[0] in (None, n in implicit) and flags[1] in (None, n not in ref.ADAPTIVE)
                    and flags[2] in (None, n in rk) and flags[3] in (None, n in ms)
                )
                ctx.require(got == exp, "after %s: get_solvers(%s, %s) is %s", seq, g, kw, got)
    return "some refused" if refused else "registered"


class _Log:
    """Collects what a forked child covers."""

    def __init__(self):
        self.n = 0
        self.checks = 0

    def step(self, n=1):
        self.n += n

    def require(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg % args if args else msg)


def run_register(nbkode, case, ctx):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            log = _Log()
            try:
                out = ("ok", _registered(nbkode, case["seq"], log), log.n, log.checks)
            except Violation as e:
                out = ("violation", str(e), log.n, log.checks)
            except BaseException as e:  # noqa: B902
                out = ("violation", "%s: %s" % (type(e).__name__, e), log.n, log.checks)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    kind, text, n, checks = pickle.loads(data)
    ctx.step(n)
    ctx.checks += checks
    if kind == "violation":
        raise Violation(text)
    ctx.outcome(text)
    ctx.state("register", tuple(case["seq"]))
    ctx.trace()


def run(case, ctx):
    import nbkode

    {
        "filter": run_filter, "name": run_name, "near": run_near, "neargroup": run_neargroup,
        "lists": run_lists, "behaviour": run_behaviour, "register": run_register,
    }[case["kind"]](nbkode, case, ctx)
