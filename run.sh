#!/bin/bash
# usage: run.sh PROPERTY [CASES]
# Builds the harness against /repo's working tree in a scratch directory and runs
# the check of one property. VERIF_SEED and VERIF_TIER (quick, thorough) select the run.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
id=$1
. "$verif/harness/env.sh"
scratch=$(mktemp -d /tmp/amtcheck.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM
case $id in
  C11) builds="plain race" ;;
  C12) builds="plain asan race" ;;
  *) builds="plain" ;;
esac
"$verif/harness/build.sh" "$scratch" $builds || exit 2
"$scratch/amtcheck-plain" run -prop "$id" -n "${2:-0}" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -dir "$scratch" -verif "$verif"
