#!/bin/bash
# usage: check.sh <property> [quick|thorough]     (cwd: /verif)
# Runs the deterministic-simulation check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
export FEAX_REPO="${FEAX_REPO:-/repo}"
export TF_CPP_MIN_LOG_LEVEL=3
# never trust byte code that some earlier run left beside the sources
SCR="$(mktemp -d /tmp/feaxsim.XXXXXX)" || exit 2
export SIM_SCRATCH="$SCR" TMPDIR="$SCR" PYTHONPYCACHEPREFIX="$SCR/pyc"
export PYTHONPATH="$FEAX_REPO:$PWD"
export PYTHONUNBUFFERED=1
PY="${SIM_PYTHON:-/opt/venv/bin/python}"
trap 'rm -rf "$SCR"' EXIT
"$PY" -m sim.main "$@"
rc=$?
exit $rc
