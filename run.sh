#!/bin/bash
# run.sh ID [--tier quick|thorough] [--replay FILE] : run one property's check.
# Everything is imported from /repo's working tree; nothing is built or cached.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export PYTHONPYCACHEPREFIX=/nonexistent/verif-no-pycache
export MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 BLOSC_NTHREADS=1 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE PYTHONWARNINGS
exec /opt/venv/bin/python -m pbt.main "$@"
