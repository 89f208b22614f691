#!/bin/bash
# run.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/lib:${VERIF_REPO:-/repo}:${VERIF_REPO:-/repo}/src" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "checks/$(echo "$1" | tr A-Z a-z).py"
