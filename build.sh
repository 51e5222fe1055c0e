#!/bin/bash
# build.sh: builds /verif/bin/cfcheck from the committed source, offline
cd "$(dirname "$0")/checker" || exit 1
out=../bin/cfcheck
if [ -x "$out" ] && [ -z "$(find . -name '*.go' -newer "$out" -print -quit)" ] && [ ! go.mod -nt "$out" ]; then exit 0; fi
mkdir -p ../bin
unset GOROOT GOPATH
export GOFLAGS=-mod=vendor GOPROXY=off GO111MODULE=on GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
tmp=$(mktemp ../bin/cfcheck.XXXXXX) || exit 1
if go build -o "$tmp" . ; then mv -f "$tmp" "$out"; else rm -f "$tmp"; exit 1; fi
