#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     or: check.sh replay <file>
# Runs one check against /repo's working tree (imported from source; no compiled file is read or written).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -m mc.run "$@"
