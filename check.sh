#!/bin/bash
# check.sh <property> <quick|thorough> — run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/pypyvenv/bin/python -W ignore harness/run.py "$@"
