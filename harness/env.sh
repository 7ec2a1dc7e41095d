# toolchain and offline switches (same toolchain as /opt/vp/env.sh)
for d in /opt/veriftools/go1.27.3/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH"; done
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOEXPERIMENT GODEBUG GORACE GOGC GOMEMLIMIT
