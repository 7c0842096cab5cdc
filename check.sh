#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--replay FILE] [--runs N] [--seed N]
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -u -m dst.main "$@"
