#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]      or: check.sh --replay FILE
# Runs the checks of one property against /repo's current working tree.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
PY=/opt/venv/bin/python
"$PY" "$D/tools/bootstrap.py" || exit 3
export PYTHONPATH="$D:/repo/src:$D/.deps"
cd "$D" || exit 3
if [ "$1" = "--replay" ]; then exec "$PY" -m pbt.run --replay "$2"; fi
exec "$PY" -m pbt.run "$1" "${2:-${VERIF_TIER:-quick}}"
