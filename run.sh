#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE ...]
# Rebuilds the C extensions from /repo's working tree, then runs the simulation.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0 PIP_NO_INDEX=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONPATH="$REPO:$HERE"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
if [ -z "$VERIF_NOBUILD" ]; then
  B="$(mktemp -d "${TMPDIR:-/tmp}/vsimbuild.XXXXXX")"
  if ! (cd "$REPO" && $PY setup.py -q build_ext --inplace --force --build-temp "$B" --build-lib "$B") >"$B/log" 2>&1; then
    echo "build failed:" >&2; tail -20 "$B/log" >&2
    rm -rf "$B"
    exit 2
  fi
  rm -rf "$B"
fi
cd "$HERE" || exit 2
exec $PY -c 'import sys; from sim.harness import main; sys.exit(main(sys.argv[1:]))' "$@"
