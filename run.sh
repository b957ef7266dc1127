#!/bin/bash
# run.sh ID [quick|thorough] : decide one property of /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt "$here/lib/main.py" "$@"
