#!/bin/sh
# Nothing to build: checks that the interpreter and the sources are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
sys.dont_write_bytecode = True
import numpy, scipy, numba
from nbmc import engine, ref, lockstep
print("numpy", numpy.__version__, "scipy", scipy.__version__, "numba", numba.__version__)
PY
