#!/bin/bash
# check.sh <property id> [run.py options]: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TQDM_DISABLE=1
exec /opt/venv/bin/python mc/run.py "$@"
