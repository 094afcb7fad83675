#!/bin/bash
# replay.sh <file>: run one saved case against /repo, without Hypothesis.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
exec python3-vt run.py replay "$1"
