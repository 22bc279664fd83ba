#!/bin/bash
# run.sh CHECK [--tier quick|thorough] [--replay FILE]: runs one check against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/mcgpyopt.XXXXXX)"
trap 'case "$scratch" in /tmp/mcgpyopt.*) rm -rf -- "$scratch";; esac' EXIT
export MC_SCRATCH="$scratch" MPLBACKEND=agg MPLCONFIGDIR="$scratch/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="${MC_REPO:-/repo}:$here"
mkdir -p "$scratch/mpl" "$scratch/cwd"
cd "$scratch/cwd"
# the exit code of the check is the exit code of this script
/opt/venv/bin/python -W ignore -m mc.run "$@"
