#!/bin/bash
# Nothing to compile: the simulator is Python and imports feax from /repo at run time.
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${FEAX_REPO:-/repo}:$PWD" /opt/venv/bin/python - <<'P'
import sys
assert sys.version_info[:2] >= (3, 12)
import sim.core, sim.sched, sim.main
import numpy, scipy, jax
print("simulator importable; python", sys.version.split()[0], "jax", jax.__version__)
P
