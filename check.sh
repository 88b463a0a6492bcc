#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 engine/core.py "$@"
