#!/bin/bash
# Usage: run.sh ID [--replay FILE].  Runs one check against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
# local time differs from UTC.
export TZ=MCT-05:30
unset PYTHONPATH PYTHONSTARTUP
exec /opt/venv/bin/python --jit off -W ignore mc/main.py "$@"
