#!/bin/bash
# Nothing to build: verifies that the interpreter, the tested sources and Hypothesis are present.
cd "$(dirname "$0")" || exit 1
mkdir -p ../evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "."); sys.path.insert(0, "/repo/blueprint/src/python")
import core, geo, gen, hypothesis, numpy, cdd
assert geo.lp_max([0, 1], [([3, -1], False)], 1)[1] == 3
print("setup ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
PY
