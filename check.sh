#!/bin/bash
# check.sh PROPERTY [options]: run one property's monitors against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
export TIM_REPO=${TIM_REPO:-/repo}
export PYTHONPATH="$TIM_REPO:$here"
exec /opt/venv/bin/python -W ignore -m tim.run "$@"
