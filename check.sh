#!/bin/bash
# check.sh <ID> [--tier quick|thorough] [--replay FILE]: run one check from /verif on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
/opt/venv/bin/python check.py "$@"
