#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay file] ...
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${VERIF_REPO:-/repo}
exec /opt/venv/bin/python "$here/lib/runner.py" "$@"
