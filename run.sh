#!/bin/bash
# bash run.sh P01 quick|thorough [options]   (see vf/run.py)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
prop="$1"; tier="${2:-quick}"; shift 2
repo="${VF_REPO:-/repo}"
# lambeq/version.py is generated by the build and ignored by git
if [ ! -f "$repo/lambeq/version.py" ] && [ -f /opt/vp/version.py ]; then
  cp /opt/vp/version.py "$repo/lambeq/version.py"
fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg \
  HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 CUDA_VISIBLE_DEVICES= \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" \
  LANG=C.UTF-8 LC_ALL=C.UTF-8 TQDM_DISABLE= JAX_PLATFORMS=cpu \
  TOKENIZERS_PARALLELISM=false PYTHONPATH="$here:$repo"
exec timeout -k 5 "${VF_TIMEOUT:-$([ "$tier" = thorough ] && echo 5400 || echo 880)}" \
  /opt/venv/bin/python -W ignore -m vf.run "$prop" --tier "$tier" "$@"
