#!/bin/sh
# nothing to compile: verify that the interpreter with hypothesis and the repository are importable
cd "$(dirname "$0")" || exit 1
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import hypothesis, sys; sys.path.insert(0, "."); from xv.runner import import_repo; print("xlrd", import_repo().__version__, "hypothesis", hypothesis.__version__)'
