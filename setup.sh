#!/bin/bash
# Nothing to compile: the framework is pure Python run with the interpreter svgio is tested with.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 "$PY" -B -c "import sys; sys.path.insert(0,'/repo'); import svgio.path, svgio.nodes, svgio.basic"
echo "setup ok"
