#!/bin/bash
# check.sh <property>: exit 0 held, 1 VIOLATION, 2 harness error.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
exec python3-vt run.py check "$@"
