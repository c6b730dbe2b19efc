#!/bin/sh
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python -m checks.run "$@"
