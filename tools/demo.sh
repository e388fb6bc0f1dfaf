#!/bin/bash
export PATH=/opt/venv/bin:$PATH OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B -W ignore "$here/demo.py"
