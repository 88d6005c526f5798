#!/bin/bash
# Usage: check.sh <property> <quick|thorough>   or   check.sh <property> replay <file>
# Runs one property's generated-input search against the code in $PTERA_REPO (default /repo).
here="$(cd "$(dirname "$0")" && pwd)"
repo="${PTERA_REPO:-/repo}"
work="$(mktemp -d /tmp/ptera-check.XXXXXXXX)" || exit 3
case "$work" in /tmp/ptera-check.*) ;; *) exit 3 ;; esac
mkdir -p "$work/numba" "$work/mpl" "$work/cwd"
export HOME="$work" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" MPLBACKEND=Agg \
  QT_QPA_PLATFORM=offscreen PYVISTA_OFF_SCREEN=true PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 \
  NUMBA_CACHE_DIR="$work/numba" MPLCONFIGDIR="$work/mpl" PTERA_REPO="$repo" PTERA_WORK="$work"
python=/opt/venv/bin/python
[ -x "$python" ] || python=python3
cd "$work/cwd" || exit 3
trap 'kill -TERM -- "-$child" 2>/dev/null; rm -rf -- "$work"; exit 4' INT TERM
set -m
"$python" -B -W ignore "$here/harness/run.py" "$@" &
child=$!
set +m
wait "$child"
code=$?
rm -rf -- "$work"
exit "$code"
