#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE] [...]: one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8 PYTHONUTF8=1
unset PYTHONPATH PYTHONSTARTUP PYTHONWARNINGS PYTHONOPTIMIZE
cd "$here" || exit 2
[ -f "$here/build/shim.so" ] && [ -d "$here/build/mplconfig" ] || bash "$here/setup.sh" >/dev/null || exit 2
exec "$PY" -m dst.main "$@"
