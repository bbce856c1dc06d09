#!/bin/bash
# run.sh <PROPERTY> [--tier T] [--only SUBSTR]   or   run.sh --replay FILE
cd "$(dirname "$0")" || exit 3
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONHASHSEED=0
export PYTHONPATH="${VT_REPO:-/repo}:$PWD" PYTHONPYCACHEPREFIX=/nonexistent OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vt.run "$@"
