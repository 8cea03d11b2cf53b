#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt "$V/sa/check.py" "$@"
