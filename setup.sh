#!/bin/bash
# Nothing to build: pyvc and the drivers are plain Python. Check that the tools they need are here.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import unpythonic"
python3-vt -c "import z3, cvc5"
mkdir -p evidence replay
