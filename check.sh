#!/bin/bash
# check.sh <property id> [options]: run one monitor against the tree in /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
# No stale bytecode may stand in for a source file.
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache
unset PYTHONPATH
exec /opt/venv/bin/python -B -W ignore mon/run.py "$@"
