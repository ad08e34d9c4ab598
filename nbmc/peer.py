"""A second process that runs the uncompiled code and answers cases with observations.

The compiled worker of C20 asks it what the uncompiled code does for the same case.
"""

import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Peer:
    def __init__(self, pid):
        env = dict(os.environ)
        env["NBKODE_NONUMBA"] = "1"
        self.p = subprocess.Popen(
            [sys.executable, "-m", "nbmc", "peer", pid],
            cwd=ROOT, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
        )

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the uncompiled process died on %s" % json.dumps(case))
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve(pid):
    from . import boot, engine

    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = engine.load_prop(pid)
    boot.load("interp", shim=False)
    for line in sys.stdin:
        try:
            rec = mod.observe(json.loads(line), "interp")
        except (Exception, engine.Hang) as e:
            rec = {"failed": "%s: %s" % (type(e).__name__, e)}
        out.write(json.dumps(rec) + "\n")
        out.flush()
    return 0
