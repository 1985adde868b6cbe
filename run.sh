#!/bin/bash
# bash run.sh <property> [extra args]: run one check on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset SKFOLIO_DATA
exec /opt/venv/bin/python -m mc.run "$@"
