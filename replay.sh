#!/bin/bash
# usage: replay.sh FILE
# Runs the case in a replay file against /repo's working tree: exit 1 and a VIOLATION line if it still fails.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
. "$verif/harness/env.sh"
scratch=$(mktemp -d /tmp/amtcheck.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
"$verif/harness/build.sh" "$scratch" plain race asan || exit 2
"$scratch/amtcheck-plain" replay -dir "$scratch" "$1"
