#!/bin/bash
# build the MIR extraction driver and the dependencies it analyses against (offline)
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 sa/run.py --setup
