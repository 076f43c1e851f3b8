#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -W ignore -m symreg.run "$@"
