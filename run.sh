#!/bin/bash
# usage: run.sh <property-id> <quick|thorough>
# Runs one check against /repo's working tree inside a private scratch directory.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vf_${id}_XXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/cache" "$scratch/home" "$scratch/tmp"
export VF_SCRATCH="$scratch" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export XDG_CACHE_HOME="$scratch/cache" HOME="$scratch/home" TMPDIR="$scratch/tmp"
export PATH="/opt/venv/bin:$PATH" PYTHONPATH="/repo:$here/lib:$here/checks"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
unset MAKEFLAGS CFLAGS LDFLAGS
cd "$scratch" || exit 2
/opt/venv/bin/python -u "$here/checks/$id.py"
exit $?
