#!/bin/bash
# bash check.sh PROPERTY [thorough]: builds the monitors with /repo's working tree and
# decides the property. bash check.sh -replay FILE repeats one case.
if [ "$2" = thorough ]; then
	export VERIF_TIER=thorough
	set -- "$1"
fi
cd "$(dirname "$0")/nmv" || exit 2
root=$(cd .. && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
bin=$(mktemp -d /tmp/nmv-build-XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/nmv" . || exit 2
race=()
if [ "$("$bin/nmv" -needsrace "$@")" = true ]; then
	go build -race -o "$bin/nmv-race" . || exit 2
	race=(-racebin "$bin/nmv-race")
fi
"$bin/nmv" -root "$root" "${race[@]}" "$@"
