#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--family F] [--replay FILE]
# Explores the current tree of /repo for one property.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/verif-no-cache
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mc.main "$@"
