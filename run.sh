#!/bin/bash
# run.sh ID [quick|thorough] [further arguments of the explorer]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python -B -m vf "$ID" --tier "$TIER" "$@"
