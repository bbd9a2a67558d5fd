#!/bin/bash
# usage: check.sh <PROPERTY> [extra args]; environment: VERIF_SEED, VERIF_TIER
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export TQDM_DISABLE=1 CUDA_VISIBLE_DEVICES= NUMBA_CACHE_DIR=/tmp/verif_numba_$$ MPLBACKEND=Agg
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m symx.run "$@"
