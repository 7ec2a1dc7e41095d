#!/bin/bash
# usage: build.sh OUTDIR VARIANT...   (variants: plain race asan)
# Builds the harness against the working tree of $AMT_REPO (default /repo), with
# the standard hash/maphash package replaced by a controllable copy.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${AMT_REPO:-/repo}
out=$1; shift
. "$here/env.sh"
goroot=$(go env GOROOT)
src=$goroot/src/hash/maphash/maphash.go
mkdir -p "$out"
sed -e 's/^func rthash(buf \[\]byte, seed uint64) uint64 {/func verifOrigRthash(buf []byte, seed uint64) uint64 {/' \
    -e 's/^func randUint64() uint64 {/func verifOrigRandUint64() uint64 {/' \
    -e 's/^\treturn rthash(b, state)$/\treturn rthashFinal(b, state)/' \
    -e 's/^\treturn rthashString(s, state)$/\treturn rthashFinal(unsafe.Slice(unsafe.StringData(s), len(s)), state)/' \
    -e 's/^\treturn rthash(h.buf\[:h.n\], h.state.s)$/\treturn rthashFinal(h.buf[:h.n], h.state.s)/' "$src" > "$out/maphash.go"
grep -q '^func verifOrigRthash' "$out/maphash.go" && [ "$(grep -c rthashFinal "$out/maphash.go")" = 3 ] && grep -q '^func verifOrigRandUint64' "$out/maphash.go" || {
  echo "build.sh: unexpected hash/maphash sources in $goroot" >&2; exit 2; }
cp "$here/overlay/verif_hook.go.txt" "$out/verif_hook.go"
cat > "$out/overlay.json" <<J
{"Replace": {"$src": "$out/maphash.go", "$goroot/src/hash/maphash/verif_hook.go": "$out/verif_hook.go"}}
J
sed "s#=> /repo#=> $repo#" "$here/go.mod" > "$out/go.mod"
cd "$here"
pids=()
for v in "$@"; do
  case $v in
    plain) f="" ;;
    race) f="-race" ;;
    asan) f="-asan" ;;
    *) echo "build.sh: unknown variant $v" >&2; exit 2 ;;
  esac
  (
    # tag intkey: uses amt.Int as a generic key; left out (and reported by C14) when only that does not compile
    go build $f -tags intkey -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/amtcheck-$v" ./amtcheck ||
    go build $f -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/amtcheck-$v" ./amtcheck
  ) 2> "$out/build-$v.log" &
  pids+=("$!:$v")
done 
rc=0
for p in "${pids[@]}"; do
  wait "${p%%:*}" || { rc=2; echo "build.sh: building ${p##*:} failed" >&2; cat "$out/build-${p##*:}.log" >&2; }
done
exit $rc
