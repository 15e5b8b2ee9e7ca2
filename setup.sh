#!/bin/sh
# Nothing to build: the checks run from source against /repo's working tree.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, lxml, quart; print('hypothesis', hypothesis.__version__)"
