#!/bin/bash
# run.sh <property id> <tier>: runs one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER=${2:-quick}
p=$(echo "$1" | tr 'A-Z' 'a-z')
exec /opt/venv/bin/python "$here/$p.py"
