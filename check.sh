#!/bin/bash
# usage: check.sh <PROPERTY-ID> [quick|thorough] [--replay FILE]
# Runs one property's monitors against /repo's current working tree (pure Python: nothing to compile).
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH=/verif:${VERIF_REPO_SRC:-/repo/src}  # the variable is for trying scratch copies while developing
exec /opt/venv/bin/python -m harness.main "$@"
