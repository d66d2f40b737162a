#!/bin/bash
# Usage: run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONPATH=${RV_REPO:-/repo}:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -X faulthandler -m rv.main "$@"
