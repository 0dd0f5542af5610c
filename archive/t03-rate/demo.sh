#!/bin/bash
# Run with the tree under test as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec "$py" -W ignore "$here/demo.py"
