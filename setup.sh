#!/bin/bash
# nothing to build: check that the interpreter, the solver bindings and the repository can be imported
cd "$(dirname "$0")" || exit 3
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONPATH="${VT_REPO:-/repo}:$PWD"
mkdir -p evidence
exec /opt/venv/bin/python -c "import vt.engine, z3, hvd; print('z3', z3.get_version_string())"
