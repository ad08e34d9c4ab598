"""C18: the case-insensitive mapping behaves like a dictionary."""

import itertools

from ..engine import Violation  # noqa: F401

PID = "C18"
TECHNIQUE = "explicit-state model checking: complete reachable state graph of the reference dictionary (all transitions replayed on the real class) plus all operation histories up to a depth without merging states"
NOTE = (
    "The model is a Python dict from the lower-cased name to (last spelling, value). Every reachable model state over the key "
    "alphabet is built on the real class along its shortest history and every operation is applied to it; all observations "
    "(lookups in every spelling, membership, iteration, views, equality against every kind of mapping, repr) are compared. "
    "All histories up to a depth are also run without merging, copies made on the way are checked at the end."
)
RULE = "state graph: 3 names x 2 spellings x 2 values, all operations; histories: all sequences of 34 operations up to depth 3 (quick) / 4 (thorough); equality of all pairs of states"
ASSUMPTIONS = ["keys are strings; updates with two keys that differ only by case are undefined (documented) and not made"]

NAMES = ("ab", "cd", "ef")
SPELLINGS = {"ab": ("Ab", "aB"), "cd": ("cd", "CD"), "ef": ("eF", "EF")}
KEYS = tuple(s for n in NAMES for s in SPELLINGS[n])
LOOK = KEYS + ("ab", "AB", "Cd", "ef", "x", "")
VALUES = (0, None)

OPS = (
    [("set", k, v) for k in KEYS for v in VALUES]
    + [("del", k) for k in KEYS]
    + [("pop", KEYS[0]), ("pop", KEYS[3]), ("popd", KEYS[1]), ("popd", KEYS[4])]
    + [("setdefault", k) for k in (KEYS[0], KEYS[3], KEYS[5])]
    + [("update", i) for i in range(7)]
    + [("copy",), ("copyswap",), ("popitem",), ("clear",), ("ctor",), ("self",), ("read",)]
)
SMALL = [o for o in OPS if not (o[0] == "set" and o[2] == 0 and o[1] in (KEYS[1], KEYS[3], KEYS[4], KEYS[5])) and not (o[0] in ("set", "del") and o[1] == KEYS[5])]
UPDATES = (
    lambda D: ({"AB": 7},),
    lambda D: ([("cD", 8), ("Ab", 9)],),
    lambda D: (D({"EF": 1, "AB": 2}),),
    lambda D: ({},),
    lambda D: ((("Ef", x) for x in (3, 4)),),
    lambda D: ("kw", {"aB": 5, "eF": 6}),
    lambda D: ({"CD": 1}, "kw", {"ab": 11}),
)
UPDATE_PAIRS = (
    [("AB", 7)], [("cD", 8), ("Ab", 9)], [("EF", 1), ("AB", 2)], [], [("Ef", 3), ("Ef", 4)],
    [("aB", 5), ("eF", 6)], [("CD", 1), ("ab", 11)],
)


class Model:
    def __init__(self):
        self.d = {}

    def key(self):
        return tuple((k, s, v) for k, (s, v) in self.d.items())

    def set(self, k, v):
        self.d[k.lower()] = (k, v)

    def clone(self):
        m = Model()
        m.d = dict(self.d)
        return m


def update_args(i, D):
    a = UPDATES[i](D)
    kw = {}
    if "kw" in a:
        j = a.index("kw")
        kw = a[j + 1]
        a = a[:j]
    return a, kw


def apply(op, real, model, kept, D, ctx):
    """One transition on both. Returns the pair to go on with."""
    kind = op[0]
    ctx.step()

    def both(fr, fm):
        try:
            a = ("ok", fr())
        except Exception as e:
            a = ("exc", type(e).__name__)
        try:
            b = ("ok", fm())
        except Exception as e:
            b = ("exc", type(e).__name__)
        ctx.require(a == b, "%s on %s: %s instead of %s", op, model.key(), a, b)
        return b

    if kind == "set":
        real[op[1]] = op[2]
        model.set(op[1], op[2])
    elif kind == "del":
        def fr():
            del real[op[1]]

        def fm():
            del model.d[op[1].lower()]

        both(fr, fm)
    elif kind == "pop":
        both(lambda: real.pop(op[1]), lambda: model.d.pop(op[1].lower())[1])
    elif kind == "popd":
        both(lambda: real.pop(op[1], "none"), lambda: model.d.pop(op[1].lower(), (0, "none"))[1])
    elif kind == "setdefault":
        def fm():
            if op[1].lower() not in model.d:
                model.set(op[1], "dflt")
            return model.d[op[1].lower()][1]

        both(lambda: real.setdefault(op[1], "dflt"), fm)
    elif kind == "update":
        a, kw = update_args(op[1], D)
        real.update(*a, **kw)
        for k, v in UPDATE_PAIRS[op[1]]:
            model.set(k, v)
    elif kind in ("copy", "copyswap"):
        c = real.copy()
        m = model.clone()
        ctx.require(type(c) is D, "copy() gives %s", type(c).__name__)
        if kind == "copyswap":
            c, real = real, c
        kept.append((c, m))
    elif kind == "popitem":
        # which entry goes is not specified: it must be one that was there
        if not model.d:
            both(lambda: real.popitem(), lambda: {}.popitem())
        else:
            k, v = real.popitem()
            ctx.require(model.d.get(k.lower()) == (k, v), "popitem gave %r", (k, v))
            del model.d[k.lower()]
    elif kind == "clear":
        real.clear()
        model.d.clear()
    elif kind == "ctor":
        c = D(real)
        kept.append((real, model.clone()))
        real = c
    elif kind == "self":
        real.update(dict(real))
    elif kind == "read":
        both(lambda: real["Ab"], lambda: model.d["ab"][1])
        both(lambda: real.get("CD"), lambda: model.d.get("cd", (0, None))[1])
        both(lambda: "EF" in real, lambda: "ef" in model.d)
        list(real)
    return real, model


def observe(real, model, D, ctx):
    items = [(s, v) for s, v in model.d.values()]
    ctx.require(len(real) == len(items), "len is %d, model %s", len(real), items)
    ctx.require(bool(real) == bool(items), "bool")
    ctx.require(list(real) == [s for s, _ in items], "iteration %s, model %s", list(real), items)
    ctx.require(list(real.keys()) == [s for s, _ in items], "keys %s, model %s", list(real.keys()), items)
    ctx.require(list(real.values()) == [v for _, v in items], "values %s, model %s", list(real.values()), items)
    ctx.require(list(real.items()) == items, "items %s, model %s", list(real.items()), items)
    ctx.require(list(real.lower_items()) == [(s.lower(), v) for s, v in items], "lower_items %s", list(real.lower_items()))
    ctx.require(repr(real) == repr(dict(items)), "repr %r", repr(real))
    for k in LOOK:
        inside = k.lower() in model.d
        ctx.require((k in real) == inside, "%r in %s", k, items)
        ctx.require((k in real.keys()) == inside, "%r in keys of %s", k, items)
        ctx.require(real.get(k, "none") == (model.d[k.lower()][1] if inside else "none"), "get(%r) of %s", k, items)
        try:
            v = real[k]
            ctx.require(inside and v == model.d[k.lower()][1], "[%r] of %s is %r", k, items, v)
        except KeyError:
            ctx.require(not inside, "[%r] of %s raises", k, items)
    low = {s.lower(): v for s, v in items}
    up = {s.upper(): v for s, v in items}
    for other in (low, up, dict(items), D(low), D(up), D(list(items)), dict(reversed(list(up.items())))):
        ctx.require(real == other and not (real != other), "%s differs from %s", items, other)
        ctx.require(other == real, "%s differs from %s", other, items)
    for other in (dict(low, zz=1), D(dict(up, zz=1)), dict(low, ab="changed"), D(dict(low, ab="changed"))):
        ctx.require(real != other and not (real == other), "%s equals %s", items, other)
    for k in low:
        less = {x: v for x, v in low.items() if x != k}
        ctx.require(real != less and real != D(less), "%s equals %s", items, less)
        for name in ("zz", ""):
            other = dict(less, **{name: low[k]})
            ctx.require(not real == other and not real == D(other) and not other == real, "%s equals %s", items, other)
    for other in (None, 3, "ab", list(items), tuple(items), set()):
        ctx.require(real != other and not (real == other), "%s equals %r", items, other)
    ctx.state(model.key())


def graph():
    """All reachable model states with a shortest history each."""
    seen = {(): ()}
    todo = [()]
    for st in todo:
        for k in KEYS:
            for v in VALUES:
                m = Model()
                m.d = {a: (s, x) for a, s, x in st}
                m.set(k, v)
                if m.key() not in seen:
                    seen[m.key()] = seen[st] + (("set", k, v),)
                    todo.append(m.key())
    return seen


_G = []


def states():
    if not _G:
        _G.extend(sorted(graph().items(), key=lambda x: (len(x[1]), repr(x[0]))))
    return _G


def cases(tier, mode):
    out = [{"kind": "state", "i": i} for i in range(len(states()))]
    out += [{"kind": "equal", "i": i} for i in range(len(states()))]
    ops = range(len(SMALL))
    out.append({"kind": "history", "prefix": [], "depth": 0})
    out += [{"kind": "history", "prefix": [a], "depth": 1} for a in ops]
    out += [{"kind": "history", "prefix": [a, b], "depth": 2 if tier == "thorough" else 1} for a in ops for b in ops]
    out.append({"kind": "ctor"})
    return out


def build(hist, D, ctx):
    real, model, kept = D(), Model(), []
    for op in hist:
        real, model = apply(op, real, model, kept, D, ctx)
    return real, model, kept


def finish(real, model, kept, D, ctx):
    observe(real, model, D, ctx)
    for r, m in kept:
        observe(r, m, D, ctx)
    # the copies are independent: change them all, the others must not follow
    for j, (r, m) in enumerate(kept):
        r["gh"] = j
        del r["GH"]
        r["AB"] = ("own", j)
        m.set("AB", ("own", j))
    if kept:
        observe(real, model, D, ctx)
        for r, m in kept:
            observe(r, m, D, ctx)
    ctx.trace()


def run(case, ctx):
    from nbkode.util import CaseInsensitiveDict as D

    kind = case["kind"]
    if kind == "state":
        hist = states()[case["i"]][1]
        for op in OPS:
            real, model, kept = build(hist, D, ctx)
            ctx.require(model.key() == states()[case["i"]][0], "harness")
            real, model = apply(op, real, model, kept, D, ctx)
            finish(real, model, kept, D, ctx)
    elif kind == "equal":
        a, ma, _ = build(states()[case["i"]][1], D, ctx)
        va = {k: v for k, (s, v) in ma.d.items()}
        for key, hist in states():
            b, mb, _ = build(hist, D, ctx)
            vb = {k: v for k, (s, v) in mb.d.items()}
            ctx.require((a == b) == (va == vb), "%s == %s is %s", ma.key(), mb.key(), a == b)
            ctx.require((a != b) == (va != vb), "%s != %s is %s", ma.key(), mb.key(), a != b)
            pb = {s: v for s, v in mb.d.values()}
            ctx.require((a == pb) == (va == vb), "%s == %s is %s", ma.key(), pb, a == pb)
        ctx.trace()
    elif kind == "history":
        for tail in itertools.product(range(len(SMALL)), repeat=case["depth"]):
            real, model, kept = D(), Model(), []
            for i in list(case["prefix"]) + list(tail):
                real, model = apply(SMALL[i], real, model, kept, D, ctx)
            finish(real, model, kept, D, ctx)
    else:
        for make in (
            lambda: D(), lambda: D(None), lambda: D({}), lambda: D([]), lambda: D({"Ab": 1}), lambda: D([("Ab", 1), ("cD", 2)]),
            lambda: D(Ab=1), lambda: D({"Ab": 1}, cD=2), lambda: D(D({"Ab": 1, "cD": 2})), lambda: D({"Ab": 1, "x": 2}.items()),
        ):
            r = make()
            m = Model()
            for k in r:
                m.set(k, r[k])
            observe(r, m, D, ctx)
        src = {"Ab": 1}
        r = D(src)
        src["cd"] = 3
        ctx.require(list(r.items()) == [("Ab", 1)], "the mapping follows its source")
        r["x"] = 1
        ctx.require(src == {"Ab": 1, "cd": 3}, "the source follows the mapping")
        exp = [
            (lambda: D(), {}), (lambda: D({"Ab": 1}, cD=2), {"Ab": 1, "cD": 2}), (lambda: D([("Ab", 1), ("cD", 2)]), {"Ab": 1, "cD": 2}),
        ]
        for f, e in exp:
            ctx.require(dict(f()) == e, "%s instead of %s", dict(f()), e)
        ctx.trace()
