"""C14: solver instances do not influence each other."""

import gc
import itertools
import os
import pickle
import struct
import warnings

import numpy as np

from .. import configs, events, lockstep, problems, ref

PID = "C14"
TECHNIQUE = "stateless model checking of the real code: all interleavings of the construction and calls of two and three solver instances, against each instance run alone in a pristine process"
NOTE = (
    "Every interleaving (merge) of the instances' scripts is executed; each call must return exactly what the same script "
    "returns when the instance is the only one its process ever built (a freshly forked process per reference run). "
    "Variants share or do not share right-hand side, initial state, parameters, events and times. Compiled: references "
    "in the same process."
)
RULE = "26 classes x 6 sharing variants x all 70 merges of two scripts of 4; all 325 class pairs x all 20 merges of scripts of 3; 26 triples x all 90 merges; functions that come and go, sharing code or identity"
ASSUMPTIONS = ["single-threaded use"]

SCRIPTS = (
    ("build", "step3", "run", "mid"),
    ("build", "events", "step", "mid"),
    ("build", "skip", "term", "step"),
    ("build", "mid", "step_to", "events"),
)
VARIANTS = ("twin", "size", "rhs", "params", "options", "start")


def merges(lens):
    """All interleavings of scripts of the given lengths."""
    if not any(lens):
        yield []
        return
    for i, n in enumerate(lens):
        if n:
            rest = list(lens)
            rest[i] -= 1
            for m in merges(rest):
                yield [i] + m


def cases(tier, mode):
    out = []
    m44, m33, m222 = list(merges([4, 4])), list(merges([3, 3])), list(merges([2, 2, 2]))
    for name in ref.ALL:
        for v in VARIANTS:
            for s in ((0, 1), (2, 3), (1, 1)) if tier == "thorough" else ((0, 1), (2, 1)) if v in ("twin", "rhs") else ((3, 1),):
                for m in m44:
                    out.append({"solvers": [name, name], "v": v, "scripts": list(s), "merge": m})
        for v in VARIANTS[:5]:
            for m in m222:
                if tier == "quick" and v not in ("rhs", "size"):
                    continue
                out.append({"solvers": [name] * 3, "v": v, "scripts": [0, 1, 2], "merge": m})
        for v in ("rhs", "params", "event"):
            out.append({"solvers": [name], "v": v, "reuse": 6})
    for a, b in itertools.combinations(ref.ALL, 2):
        for k, m in enumerate(m33):
            for v in ("rhs", "twin") if tier == "thorough" else ("rhs",) if k % 2 else ("twin",):
                out.append({"solvers": [a, b], "v": v, "scripts": [0, 1], "merge": m})
    return out


def prhs(t, y, p):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -p[0] * y[i] + p[1] * np.sin(t * 2.0 + i)
    return out


class World:
    """The objects the instances may share."""

    def __init__(self, mode):
        self.mode = mode
        self.y0 = {d: problems.y0_of(d) for d in (1, 2, 3)}
        self.p = {0: np.array([0.4, 0.9]), 1: np.array([1.3, -2.0]), 2: np.array([0.1, 5.0])}
        if mode == "jit":
            self.rhs = [problems.get(n, mode) for n in ("U", "clock", "square")]
            self.ev = [events.make("ticks", mode), events.make("level", mode, 1), events.make("cross", mode, None, True)]
        else:
            self.rhs = [problems.PROBLEMS[n] for n in ("U", "clock", "square")]
            self.ev = [events.make("ticks", mode), events.make("level", mode, 1), events.make("cross", mode, None, True)]
        self.prhs = prhs
        self.evlist = self.ev[:2]

    def prepare(self):
        if self.mode == "jit" and self.prhs is prhs:
            import numba

            self.prhs = numba.njit(prhs)


def describe(name, v, who):
    """What instance number `who` of the variant looks like."""
    d = {"solver": name, "rhs": 0, "dim": 2, "t0": 1.0, "h": 0.25, "p": None, "kw": {}, "shift": 0.0}
    if name in ref.ADAPTIVE:
        d["kw"] = {"rtol": 1e-3, "atol": 1e-4}
    if v == "size":
        d["dim"] = (2, 1, 3)[who]
        d["h"] = (0.25, 0.1, 0.3)[who]
    elif v == "rhs":
        d["rhs"] = who
    elif v == "params":
        d["p"] = who
    elif v == "options":
        if name in ref.ADAPTIVE:
            d["kw"] = [{"rtol": 1e-3}, {"rtol": 1e-7, "max_step": 0.1}, {"atol": 1.0, "rtol": 0.1, "first_step": 0.05}][who]
        else:
            d["h"] = (0.25, 0.05, 0.4)[who]
            if name in ref.MULTI:
                d["kw"] = [{}, {"first_stepper_cls": "RungeKutta4"}, {"first_stepper_cls": None}][who]
        d["bound"] = (np.inf, 100.0, 50.0)[who]
    elif v == "start":
        d["t0"] = (1.0, -3.0, 20.0)[who]
        d["shift"] = (0.0, 0.5, -0.2)[who]
    return d


class Instance:
    def __init__(self, d, script, world):
        self.d, self.script, self.w = d, script, world
        self.pos = 0
        self.prev = None

    def next(self):
        op = SCRIPTS[self.script][self.pos]
        self.pos += 1
        return op, self.do(op)

    def do(self, op):
        import nbkode

        d, w = self.d, self.w
        if op == "build":
            kw = dict(d["kw"])
            if d["solver"] in ref.FIXED:
                kw["h"] = d["h"]
            if "bound" in d:
                kw["t_bound"] = d["bound"]
            y0 = w.y0[d["dim"]] if not d["shift"] else w.y0[d["dim"]] + d["shift"]
            if d["p"] is not None:
                w.prepare()
                self.sol = getattr(nbkode, d["solver"])(w.prhs, d["t0"], y0, params=w.p[d["p"]], **kw)
            else:
                self.sol = getattr(nbkode, d["solver"])(w.rhs[d["rhs"]], d["t0"], y0, **kw)
            out = []
        else:
            out = self.call(op)
        s = self.sol
        return [np.array(x, float) for x in (s.t, s.y, s.f, s.h)] + out

    def call(self, op):
        s, w = self.sol, self.w
        t, h = float(s.t), float(s.h)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "step":
                r = s.step()
            elif op == "step3":
                r = s.step(n=3)
            elif op == "step_to":
                r = s.step(upto_t=t + 2.2 * h)
            elif op == "skip":
                s.skip(upto_t=t + 1.7 * h)
                r = ()
            elif op == "run":
                r = s.run([t + 1.3 * h, t + 0.2 * h, t + 1.3 * h])
            elif op == "mid":
                r = (s.interpolate(t - 0.3 * (t - self.prev) if self.prev is not None else t),)
            elif op == "events":
                r = s.run_events([t + 0.4 * h, t + 2.3 * h], w.evlist)
            else:
                r = s.run_events([t + 0.4 * h, t + 2.3 * h], [w.ev[2], w.ev[0]])
        if op in ("step", "step3") and len(r[0]) > 1:
            self.prev = float(r[0][-2])
        elif op == "step":
            self.prev = t
        else:
            self.prev = None
        return flatten(r)


def flatten(r):
    out = []
    for x in r:
        if isinstance(x, list):
            out.append(np.array(float(len(x))))
            out += flatten(x)
        else:
            out.append(np.array(x, float))
    return out


# -- references: each in a process that never built anything else -----------------


class Zygote:
    """Forked before the first solver is built; forks once per reference run."""

    def __init__(self, mode):
        self.cache = {}
        self.mode = mode
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            self.serve(a, d)
            os._exit(0)
        os.close(a)
        os.close(d)
        self.wr, self.rd = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def serve(self, a, d):
        rd = os.fdopen(a, "rb")
        while True:
            head = rd.read(4)
            if len(head) < 4:
                return
            req = rd.read(struct.unpack("I", head)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    out = solo(pickle.loads(req), self.mode)
                except BaseException as e:  # noqa: B902
                    out = "%s: %s" % (type(e).__name__, e)
                data = pickle.dumps(out)
                with os.fdopen(os.dup(d), "wb") as fh:
                    fh.write(struct.pack("I", len(data)) + data)
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, key):
        k = repr(key)
        if k not in self.cache:
            data = pickle.dumps(key)
            self.wr.write(struct.pack("I", len(data)) + data)
            self.wr.flush()
            n = struct.unpack("I", self.rd.read(4))[0]
            self.cache[k] = pickle.loads(self.rd.read(n))
        return self.cache[k]


_zy = None
_own = {}


def solo(key, mode):
    d, script = key
    inst = Instance(d, script, World(mode))
    return [inst.next() for _ in SCRIPTS[script]]


def reference(d, script, ctx):
    global _zy
    if ctx.jit:
        k = repr((d, script))
        if k not in _own:
            _own[k] = solo((d, script), "jit")
        return _own[k]
    out = _zy.ask((d, script))
    if isinstance(out, str):
        raise RuntimeError("alone: " + out)
    return out


def differ(a, b):
    if len(a) != len(b):
        return "%d results instead of %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            return "%s instead of %s" % (x, y)
    return None


def run(case, ctx):
    global _zy
    if _zy is None and not ctx.jit:
        _zy = Zygote(ctx.mode)
    if "reuse" in case:
        return reuse(case, ctx)
    w = World(ctx.mode)
    insts, refs = [], []
    for who, (name, s) in enumerate(zip(case["solvers"], case["scripts"])):
        d = describe(name, case["v"], who)
        insts.append(Instance(d, s, w))
        refs.append(reference(d, s, ctx))
    done = []
    for who in case["merge"]:
        i = insts[who]
        exp = refs[who][i.pos]
        op, got = i.next()
        done.append("%d.%s" % (who, op))
        bad = differ(got, exp[1])
        ctx.require(bad is None, "%s (%s): after %s, alone it is %s", i.d["solver"], case["v"], " ".join(done), "" if bad is None else bad)
        ctx.step()
    ctx.state(case["solvers"], case["v"], case["scripts"], case["merge"])
    ctx.trace()


def family(a, k):
    """Functions that share their code and differ by what they hold."""
    if k % 3 == 2:
        def rhs(t, y, a=a):
            return -a * y + np.cos(t)
    else:
        def rhs(t, y):
            return -a * y + np.cos(t)

    return rhs


def ticket(c, k):
    return (lambda t, y, c=c: t - c) if k % 3 == 2 else (lambda t, y: t - c)


def reuse(case, ctx):
    """Functions and solvers that come and go (object identities are recycled)."""
    import nbkode

    name = case["solvers"][0]
    cls = getattr(nbkode, name)
    kw = {"h": 0.25} if name in ref.FIXED else {"rtol": 1e-3}
    for k in range(case["reuse"]):
        a = 0.3 + 0.4 * k

        rhs = family(a, k)

        def rhsp(t, y, p):
            return -p[0] * y + np.cos(t)

        if case["v"] == "params":
            sol = cls(rhsp, 0.0, np.array([1.0, 2.0]), params=np.array([a]), **kw)
        else:
            sol = cls(rhs, 0.0, np.array([1.0, 2.0]), **kw)
        if case["v"] == "event":
            c = float(sol.t) + 0.1 + 0.05 * k
            out = sol.run_events(float(sol.t) + 0.5, [ticket(c, k)])
            ctx.require(
                len(out[2][0]) == 1 and abs(out[2][0][0] - c) < 1e-9,
                "event number %d at t=%r is reported at %s", k, c, out[2],
            )
        for _ in range(3):
            sol.step()
            t, y = float(sol.t), np.array(sol.y)
            ctx.require(
                lockstep.close(sol.f, -a * y + np.cos(t)), "solver number %d: the derivative is not the one of its function", k
            )
        ctx.step(4)
        ctx.state(name, case["v"], k)
        del sol, rhs, rhsp
        gc.collect()
    ctx.trace()


def jit_groups(tier):
    names = ref.ALL if tier == "thorough" else configs.REPS
    out = []
    for n in names:
        g = [
            c for c in cases("quick", "jit")
            if "merge" in c and c["solvers"] == [n, n] and c["v"] in (("twin", "size", "options", "start") if tier == "quick" else ("twin", "size", "options", "start", "rhs"))
        ]
        out.append(g)
    # plain functions, which the solvers compile themselves
    for n in ("RungeKutta4", "BDF2", "RungeKutta23") if tier == "thorough" else ("RungeKutta4", "AdamsMoulton2"):
        for v in ("rhs", "params", "event"):
            out.append([{"solvers": [n], "v": v, "reuse": 3 if tier == "thorough" else 2}])
    return out
