#!/bin/bash
# Build the project's libraries and Python package from /repo, and the harnesses, so that checks build incrementally
cd "$(dirname "$0")"
exec /opt/lue-venv/bin/python3 lib/setup.py
