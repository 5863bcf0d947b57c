#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONPATH= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$here" && exec /opt/venv-pypy/bin/python -B "$here/vf/core.py" "$@"
