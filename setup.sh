#!/bin/bash
# nothing to build: the checks import beep from /repo's working tree; this only verifies the interpreter is usable
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, sklearn, monty; import sys; sys.path.insert(0, '/repo'); import sim.core" || exit 1
