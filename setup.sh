#!/bin/bash
# Nothing to compile: the harness is Python and imports /repo directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python - <<'P'
import ast, glob
for f in glob.glob('vf/**/*.py', recursive=True):
    ast.parse(open(f).read(), f)
print('setup ok')
P
