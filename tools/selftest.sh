#!/bin/bash
cd "$(dirname "$0")/.." || exit 2
export CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONWARNINGS=ignore
exec /opt/venv/bin/python tools/selftest.py "$@"
