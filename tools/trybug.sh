#!/bin/bash
# trybug.sh ID [PROP...]: in a scratch copy of /repo, confirm a planted bug (demo, tests) and
# run the checks of the given properties (default: the one in meta.json) against it.
ID=$1; shift
B=/verif/seeded/$ID
W=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/r" && cd "$W/r" || exit 2
mkdir "$W/demo"; cp "$B"/* "$W/demo/"; rm -f "$W/demo/"*.diff "$W/demo/meta.json"
export PYTHONPATH=$W/r PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
bash "$W/demo/demo.sh" >"$W/d0" 2>&1 && echo "$ID demo unchanged: ok" || { echo "$ID DEMO FAILS UNCHANGED"; tail -5 "$W/d0"; }
git apply "$B/patch.diff" || exit 2
bash "$W/demo/demo.sh" >"$W/d1" 2>&1 && echo "$ID DEMO PASSES WITH PATCH" || { echo "$ID demo patched: fails as it should"; tail -2 "$W/d1"; }
if [ -z "$NOTESTS" ]; then
mkdir "$W/jax"
JAX_COMPILATION_CACHE_DIR=$W/jax JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 tests 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" | sed "s/^/$ID tests: /"
fi
unset PYTHONPATH
PROPS="$*"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /verif
for p in $PROPS; do
  FEAX_REPO=$W/r bash check.sh $p quick >"$W/c" 2>&1; rc=$?
  echo "$ID check $p rc=$rc $(grep -E '^\[sim\] [a-z-]+:|^VIOLATION|UNREP|HARNESS' "$W/c" | tail -2 | cut -c1-200 | tr '\n' ' ')"
  [ $rc = 2 ] && tail -20 "$W/c"
done
