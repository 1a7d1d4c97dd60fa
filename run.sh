#!/bin/bash
# run.sh <property> [quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/venv/bin:$PATH LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vmc.run "$@"
