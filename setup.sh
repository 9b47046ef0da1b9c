#!/bin/bash
# Nothing to compile: check that the interpreter and the package are usable.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONHOME
mkdir -p evidence
/opt/venv/bin/python -c "
import sys; sys.path.insert(0,'.')
from mc import core; core.setup_import(); print('ok')"
