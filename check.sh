#!/bin/bash
# check.sh <property id> [quick|thorough]: decide one property from /repo's current source
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 sa/run.py "$1" "${2:-${VERIF_TIER:-quick}}"
