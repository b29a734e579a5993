#!/bin/sh
# usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--unit SUBSTR] [--list]
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -B "$here/run.py" "$@"
