#!/bin/bash
# run.sh ID [quick|thorough]      run the check of one property
# run.sh ID --replay FILE         run again the one case a violation was found with
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$here/lib/npbridge:$here/lib:$here:$VERIF_REPO
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
# much fewer page faults, and no slow arithmetic on denormal numbers (see init_worker)
export MALLOC_MMAP_THRESHOLD_=4000000000 MALLOC_TRIM_THRESHOLD_=8000000000
export PATH=/opt/venv/bin:$PATH
exec /opt/venv/bin/python "$here/lib/main.py" "$@"
