#!/bin/bash
# check.sh ID quick|thorough   run a check
# check.sh replay FILE         replay a violation
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
bin="$(mktemp -d)" || exit 3
trap '/bin/rm -rf "$bin"' EXIT
(cd "$here/sim/vctl" && go build -o "$bin/vctl" .) || exit 3
export ASN1SIM_HOME="${ASN1SIM_HOME:-$here}"
if [ "$1" = replay ] || [ "$1" = build ]; then
	"$bin/vctl" "$@"
else
	"$bin/vctl" check "$1" "${2:-quick}"
fi
