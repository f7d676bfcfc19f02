#!/bin/bash
# run.sh <property id> [quick|thorough]   |   run.sh replay <file>
# Rebuilds the Cython extensions of /repo (git-ignored outputs, content-stamped) and runs one check.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LC_ALL=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH=${VMC_REPO:-/repo}:$HERE PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export PYTHONWARNINGS=ignore
cd "$HERE" || exit 2
if [ -z "$VMC_REPO" ] && ! bash /opt/vp/build.sh --ext-only > /tmp/vmc-build.$$.log 2>&1; then
    cat /tmp/vmc-build.$$.log; rm -f /tmp/vmc-build.$$.log
    exit 2
fi
rm -f /tmp/vmc-build.$$.log
exec /opt/venv/bin/python -m vmc "$@"
