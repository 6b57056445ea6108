#!/bin/bash
# run.sh CHECK [--tier quick|thorough] [--replay FILE] [--only SUB] ...
# Runs checks/CHECK.py against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=/repo:"$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
# never trust byte code cached beside the sources: every run compiles what is there now
export PYTHONPYCACHEPREFIX=/nonexistent-verif-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONHOME PYTHONSTARTUP
c=$1; shift
exec /opt/venv/bin/python -W ignore "checks/$c.py" "$@"
