#!/bin/bash
# run.sh <ID> <tier>: run one check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
cd "$here" && exec /opt/venv/bin/python -W ignore check.py "$1" "$VERIF_TIER"
