#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Rebuilds what the check needs from /repo's working tree and decides one property.
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONSTARTUP
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -X utf8 vlib/runner.py "$@"
