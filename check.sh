#!/bin/sh
# check.sh <property> [quick|thorough] [options]   decide one property against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1
exec "$py" "$here/harness/run.py" check "$@"
