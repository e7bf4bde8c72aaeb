#!/bin/bash
# check.sh <property> [quick|thorough]
exec /opt/venv/bin/python "$(dirname "$0")/checks/run.py" "$@"
