"""Explicit exploration engine: enumerates cases, runs them on the real code,
compares with the reference models, counts what was covered, writes evidence.

A property module (nbmc.props.cNN) provides

    PID, TECHNIQUE
    cases(tier, mode) -> iterable of JSON-able dicts, simplest first. The
        enumeration is complete for the bounds the module states (RULE).
    run(case, ctx)    -> executes one case; raises Violation.
    RULE, ASSUMPTIONS
    jit_groups(tier)  -> list of lists of cases, each list one compiled process
                         (optional).

The enumeration never samples. VERIF_SEED is recorded, nothing depends on it.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("NBMC_EVIDENCE", os.path.join(ROOT, "evidence"))
NPROC = int(os.environ.get("NBMC_PROCS", "8"))
CASE_SECONDS = int(os.environ.get("NBMC_CASE_SECONDS", "150"))
JIT_CASE_SECONDS = 420


class Violation(Exception):
    pass


class Hang(BaseException):
    """Raised by the guarded right-hand sides: no progress."""


class Timeout(BaseException):
    pass


def cid(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def h64(*parts):
    return int.from_bytes(
        hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big"
    )


class Ctx:
    def __init__(self, mode, tier):
        self.mode = mode
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.checks = 0

    @property
    def jit(self):
        return self.mode == "jit"

    def state(self, *key):
        """A canonical observable state that was reached."""
        self.states.add(h64(*key))

    def step(self, n=1):
        """Transitions (calls into the implementation) that were executed."""
        self.transitions += n

    def trace(self, n=1):
        """Complete histories compared with the reference model."""
        self.traces += n

    def outcome(self, tag):
        self.outcomes[tag] = self.outcomes.get(tag, 0) + 1

    def require(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            text = " ".join((msg % args if args else msg).split())
            raise Violation(text[:700])


def load_prop(pid):
    return importlib.import_module("nbmc.props." + pid.lower())


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as fh:
        return json.load(fh)


def _alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, ctx):
    """Returns None or the text of the violation."""
    use_alarm = ctx.mode == "interp"
    if use_alarm:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
    try:
        mod.run(case, ctx)
    except Violation as e:
        return str(e) or "violation"
    except Hang:
        return "does not terminate (call budget of the right-hand side exhausted)"
    except Timeout:
        return "does not terminate (%d s)" % CASE_SECONDS
    except Exception as e:  # the code under test failed in a way no model allows
        tb = traceback.extract_tb(e.__traceback__)
        inside = any("nbkode" in f.filename for f in tb)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        return "unexpected %s%s: %s (%s)" % (
            type(e).__name__,
            "" if inside else " outside nbkode",
            str(e)[:200],
            where,
        )
    finally:
        if use_alarm:
            signal.alarm(0)
    return None


def _worker(conn, pid, mode, tier, chunks):
    """Child process: runs the chunks whose numbers it is told."""
    global _MOD, _MODE, _TIER
    _MOD, _MODE, _TIER = load_prop(pid), mode, tier
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send((i, _work(chunks[i])))
    except (EOFError, BrokenPipeError):
        pass
    except BaseException:
        try:
            conn.send((-1, traceback.format_exc()))
        except Exception:
            pass
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


class Workers:
    """A pool of forked processes. The parent hands out one chunk at a time to
    each of them, so that it knows what a process that dies was doing and can
    stop at any moment without waiting for anybody."""

    def __init__(self, pid, mode, tier, chunks):
        self.args = (pid, mode, tier, chunks)
        self.todo = list(range(len(chunks)))[::-1]
        self.deaths = {}
        self.procs = {}
        for _ in range(min(NPROC, len(chunks))):
            self.start()

    def start(self):
        ours, theirs = mp.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        child = os.fork()
        if child == 0:
            for other in self.procs:
                other.close()
            ours.close()
            _worker(theirs, *self.args)
        theirs.close()
        self.procs[ours] = [child, None]
        self.give(ours)

    def give(self, conn):
        i = self.todo.pop() if self.todo else None
        self.procs[conn][1] = i
        conn.send(i)
        if i is None:
            self.end(conn)

    def end(self, conn, kill=False):
        child, _ = self.procs.pop(conn)
        if kill:
            try:
                os.kill(child, signal.SIGKILL)
            except ProcessLookupError:
                pass
        conn.close()
        os.waitpid(child, 0)

    def __iter__(self):
        while self.procs:
            for conn in wait(list(self.procs)):
                try:
                    i, out = conn.recv()
                except (EOFError, ConnectionResetError):
                    # killed from outside (memory): somebody else does it again
                    i = self.procs[conn][1]
                    self.end(conn, kill=True)
                    self.deaths[i] = self.deaths.get(i, 0) + 1
                    if self.deaths[i] > 2:
                        raise RuntimeError("three processes died in chunk %d" % i)
                    self.todo.append(i)
                    self.start()
                    continue
                if i == -1:
                    raise RuntimeError("internal error in a worker\n" + out)
                self.give(conn)
                yield out

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for conn in list(self.procs):
            self.end(conn, kill=True)


def _work(chunk):
    ctx = Ctx(_MODE, _TIER)
    bad = []
    n = 0
    for idx, case in chunk:
        msg = run_case(_MOD, case, ctx)
        n += 1
        if msg is not None:
            bad.append((idx, case, msg))
            if len(bad) >= 20:
                break
    return n, bad, ctx.states, ctx.transitions, ctx.traces, ctx.checks, ctx.outcomes


class Result:
    def __init__(self):
        self.cases = 0
        self.total = 0
        self.bad = []
        self.states = set()
        self.transitions = self.traces = self.checks = 0
        self.outcomes = {}
        self.jit_cases = 0
        self.jit_traces = 0

    def add(self, out, mode):
        n, bad, states, tr, traces, checks, outcomes = out
        self.cases += n
        self.states |= set(states)
        self.transitions += tr
        self.traces += traces
        self.checks += checks
        if mode == "jit":
            self.jit_cases += n
            self.jit_traces += traces
        for k, v in outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.bad.extend((mode,) + tuple(b) for b in bad)


def run_interp(pid, tier, res, known):
    from . import boot

    mod = load_prop(pid)
    boot.load("interp", shim=getattr(mod, "SHIM", True))
    cases = list(enumerate(mod.cases(tier, "interp")))
    res.total += len(cases)
    if not cases:
        return
    size = max(1, min(200, len(cases) // (NPROC * 6)))
    # Interleaved chunks: neighbouring cases cost the same.
    nchunks = (len(cases) + size - 1) // size
    chunks = [cases[i::nchunks] for i in range(nchunks)]
    new = 0
    with Workers(pid, "interp", tier, chunks) as pool:
        for out in pool:
            res.add(out, "interp")
            new += sum(1 for b in out[1] if cid(b[1]) not in known)
            if new >= 8:
                break


def run_jit(pid, tier, res, deadline):
    from . import boot  # noqa: F401

    mod = load_prop(pid)
    if not hasattr(mod, "jit_groups"):
        return
    groups = mod.jit_groups(tier)
    res.total += sum(len(g) for g in groups)
    env = dict(os.environ)
    env.pop("NBKODE_NONUMBA", None)
    env["NUMBA_OPT"] = "0"
    env["NUMBA_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    pending = list(range(len(groups)))
    running = {}
    deaths = {}
    while pending or running:
        while pending and len(running) < NPROC:
            g = pending.pop(0)
            errors = tempfile.TemporaryFile()
            p = subprocess.Popen(
                [sys.executable, "-m", "nbmc", "jitworker", pid, tier, str(g)],
                cwd=ROOT,
                env=env,
                stdout=subprocess.PIPE,
                stderr=errors,
            )
            os.set_blocking(p.stdout.fileno(), False)
            running[g] = [p, b"", time.time(), errors]
        time.sleep(0.05)
        for g, st in list(running.items()):
            p = st[0]
            chunk = p.stdout.read()
            if chunk:
                st[1] += chunk
                st[2] = time.time()
            if p.poll() is not None:
                rest = p.stdout.read()
                st[1] += rest or b""
                lines = st[1].decode().strip().splitlines()
                last = lines[-1] if lines else ""
                if last.startswith("RESULT "):
                    out = json.loads(last[7:])
                    out[1] = [tuple(b) for b in out[1]]
                    res.add(out, "jit")
                elif p.returncode in (-signal.SIGKILL, -signal.SIGTERM) and deaths.get(g, 0) < 3:
                    # ended from outside (memory): once more
                    deaths[g] = deaths.get(g, 0) + 1
                    pending.append(g)
                elif p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
                    raise RuntimeError("the compiled run %d was ended from outside, again and again" % g)
                else:
                    # the process died inside a case
                    cur = [x for x in lines if x.startswith("CASE ")]
                    idx = int(cur[-1].split()[1]) if cur else 0
                    st[3].seek(0)
                    msg = st[3].read().decode(errors="replace")[-600:]
                    if p.returncode is not None and p.returncode < 0 or cur:
                        res.bad.append(
                            ("jit", idx, groups[g][idx], "the process died (%s): %s" % (p.returncode, msg))
                        )
                    else:
                        res.bad.append(
                            ("jit", 0, groups[g][0], "nbkode cannot be loaded: %s" % msg)
                        )
                p.stdout.close()
                st[3].close()
                del running[g]
            elif time.time() - st[2] > JIT_CASE_SECONDS:
                cur = [x for x in st[1].decode().splitlines() if x.startswith("CASE ")]
                idx = int(cur[-1].split()[1]) if cur else 0
                p.kill()
                p.wait()
                res.bad.append(
                    ("jit", idx, groups[g][idx], "does not terminate (%d s, compiled)" % JIT_CASE_SECONDS)
                )
                del running[g]


def jitworker(pid, tier, g):
    from . import boot

    mod = load_prop(pid)
    boot.load("jit")
    cases = mod.jit_groups(tier)[g]
    ctx = Ctx("jit", tier)
    bad = []
    n = 0
    last = 0.0
    for idx, case in enumerate(cases):
        if time.time() - last > 1.0 or idx == 0:
            last = time.time()
        print("CASE %d" % idx, flush=(idx < 3 or idx % 20 == 0))
        msg = run_case(mod, case, ctx)
        n += 1
        if msg is not None:
            bad.append((idx, case, msg))
            if len(bad) >= 5:
                break
    print(
        "RESULT "
        + json.dumps(
            [n, bad, sorted(ctx.states), ctx.transitions, ctx.traces, ctx.checks, ctx.outcomes]
        )
    )
    return 0


def write_replay(pid, mode, case, msg):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (pid, hashlib.sha1((mode + cid(case)).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as fh:
        json.dump(
            {
                "property": pid,
                "mode": mode,
                "case": case,
                "what": msg,
                "replay_cmd": "/verif/check replay " + path,
            },
            fh,
            indent=1,
            sort_keys=True,
        )
    return path


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load_prop(pid)
    kf = known_findings()
    known = {}
    for k in kf["known"]:
        if k["property"] == pid:
            known[cid(k["case"])] = k
    res = Result()
    try:
        run_interp(pid, tier, res, known)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:
        if getattr(e, "nbmc_internal", False):
            raise
        tb = traceback.format_exc()
        if "nbkode" in tb and res.cases == 0 and "import nbkode" in tb:
            res.bad.append(("interp", 0, {"load": "nbkode"}, "nbkode cannot be loaded: %s" % str(e)[:300]))
        else:
            raise
    fresh = [b for b in res.bad if cid(b[2]) not in known]
    if not fresh:
        run_jit(pid, tier, res, t0)
    fresh = [b for b in res.bad if cid(b[2]) not in known]
    seen = {cid(b[2]) for b in res.bad}
    for key, k in sorted(known.items()):
        if key in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    samples = []
    gen = mod.cases(tier, "interp")
    if not gen and hasattr(mod, "jit_groups"):
        gen = mod.jit_groups(tier)[0]
    for i, c in enumerate(gen):
        if i in (0, 7, 101):
            samples.append(c)
        if i > 101:
            break
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(res.states),
            "transitions": res.transitions,
            "traces_validated_against_impl": res.traces,
            "traces_validated_compiled": res.jit_traces,
            "cases": res.cases,
            "cases_compiled": res.jit_cases,
            "comparisons": res.checks,
            "outcomes": res.outcomes,
            "rule": getattr(mod, "RULE", ""),
            "samples": samples,
            "exhaustive": not fresh and res.cases == res.total,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if ev["level"] == "fault_enumeration":
        ev["coverage"]["evaluations"] = res.cases
        ev["coverage"]["distinct_nontrivial"] = len(res.states)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    print(
        "%s %s: %d/%d cases (%d compiled), %d states, %d transitions, %d traces, %d comparisons, %.1f s"
        % (
            pid, tier, res.cases, res.total, res.jit_cases, len(res.states),
            res.transitions, res.traces, res.checks, ev["wall_s"],
        )
    )
    if fresh:
        fresh.sort(key=lambda b: (b[0] != "interp", b[1]))
        for mode, idx, case, msg in fresh[:5]:
            path = write_replay(pid, mode, case, msg)
            print("  [%s] %s\n      case %s" % (mode, msg, cid(case)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.cases != res.total:
        print("error: %d of %d cases explored" % (res.cases, res.total))
        return 3
    return 0


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    mod = load_prop(d["property"])
    from . import boot

    boot.load(d["mode"], shim=getattr(mod, "SHIM", True))
    ctx = Ctx(d["mode"], "quick")
    msg = run_case(mod, d["case"], ctx)
    if msg is None:
        print("the case passes")
        return 0
    print("%s: %s" % (d["property"], msg))
    return 1
