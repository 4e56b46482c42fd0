#!/bin/bash
# Nothing is compiled: checks that the interpreter, its libraries and the harness load.
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/repo:. PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache /opt/venv/bin/python -c "
import numpy, scipy, sklearn, loguru, requests, diamondback, vm.engine, vm.gen, vm.oracle
print('ready', numpy.__version__, scipy.__version__)"
