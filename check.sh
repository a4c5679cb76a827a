#!/bin/bash
# usage: check.sh PROP quick|thorough      run the monitors of one property against /repo
#        check.sh PROP replay FILE         re-run one recorded case
set -u
cd "$(dirname "$0")"
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 QISKIT_IN_PARALLEL=TRUE PYTHONWARNINGS=ignore
# the working tree of the repository under test is what gets imported
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD${PYTHONPATH:+:$PYTHONPATH}"
scratch=$(mktemp -d /tmp/vm.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" VM_SCRATCH="$scratch" MPLCONFIGDIR="$scratch/mpl"
/opt/venv/bin/python -m vm.runner "$@"
