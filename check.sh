#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [-v]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=2
export VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif-check.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR="$scratch/numba" TMPDIR="$scratch"
cd "$scratch" || exit 2
/opt/venv/bin/python "$here/run.py" "$@"
exit $?
