#!/bin/bash
# Nothing to compile: verify that the interpreter, the repository's package and
# Hypothesis can be loaded.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, 'lib')
import engine, leap_ec
print('hypothesis', engine.hypothesis.__version__, 'leap_ec', leap_ec.__file__)
PY
