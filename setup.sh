#!/bin/bash
# The checks are plain Python run against /repo's working tree. Nothing has to
# be built; verify that the interpreter and the generators are there.
cd "$(dirname "$0")" && mkdir -p evidence replay
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys
try:
    import hypothesis
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis
import numpy, pbt.runner
print('hypothesis', hypothesis.__version__)"
