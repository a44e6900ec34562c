#!/bin/bash
# ./check.sh PROP [quick|thorough]   ./check.sh replay FILE   ./check.sh run PROP SEED [trace]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VSIM_VERIF="${VSIM_VERIF:-$PWD}"
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
T=$(mktemp -d /tmp/vsimdrv.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/vsim" ./cmd/vsim || exit 2
case "$1" in
replay | run | build | survey | hunt) "$T/vsim" "$@" ;;
*) "$T/vsim" check "$@" ;;
esac
