#!/bin/bash
# Warms the build cache up; the checks build on their own.
cd "$(dirname "$0")/nmv" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go vet . && go build -o /dev/null . && go build -race -o /dev/null .
