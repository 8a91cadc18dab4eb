#!/bin/bash
# run.sh <property> <quick|thorough>
cd "$(dirname "$0")"
exec /opt/lue-venv/bin/python3 lib/runner.py "$1" --tier "${2:-quick}"
