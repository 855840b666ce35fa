#!/bin/bash
# run.sh <property> [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
# (without these two the graph library spends most of the time returning memory to the system)
export MALLOC_TRIM_THRESHOLD_=1000000000 MALLOC_MMAP_THRESHOLD_=1000000000
exec /opt/venv/bin/python "checks/$1.py" "${2:-${VERIF_TIER:-quick}}"
