#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
[ -n "$VC_TYPED" ] || export JAXTYPING_DISABLE=1
export PYTHONPATH="$PWD${VC_REPO:+:$VC_REPO}" TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -W ignore -m vc.runner "$1" "${2:-${VERIF_TIER:-quick}}"
