#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] ...: decides one property on /repo's current source
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python pvc/check.py "$@"
