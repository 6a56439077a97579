#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one runtime-monitoring check against the code in /repo (imported in place, never written to).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 LANG=C.UTF-8
unset MSKHOME || true
export VERIF_REPO=$REPO
export PYTHONPATH=$REPO:$HERE
# gpkit's first import without this (git-ignored) file would run its own installer and tests
if [ ! -s "$REPO/gpkit/env/settings" ]; then
  mkdir -p "$REPO/gpkit/env" && echo "installed_solvers : cvxopt" > "$REPO/gpkit/env/settings"
fi
exec /opt/venv/bin/python -W ignore -B -m mon.main "$@"
