import os
import sys

from . import engine


def main(argv):
    if argv[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return engine.check(argv[1].upper(), tier)
    if argv[:1] == ["jitworker"]:
        return engine.jitworker(argv[1], argv[2], int(argv[3]))
    if argv[:1] == ["peer"]:
        from . import peer

        return peer.serve(argv[1])
    if argv[:1] == ["replay"]:
        return engine.replay(argv[1])
    print("usage: check Cnn [--tier quick|thorough] | replay FILE")
    return 2


sys.exit(main(sys.argv[1:]))
