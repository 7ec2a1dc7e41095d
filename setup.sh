#!/bin/bash
# Checks that the harness builds offline; every check builds it again for itself.
set -eu
cd "$(dirname "$0")"
scratch=$(mktemp -d /tmp/amtsetup.XXXXXX)
trap 'rm -rf -- "$scratch"' EXIT
./harness/build.sh "$scratch" plain race asan
mkdir -p evidence
