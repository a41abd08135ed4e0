#!/bin/bash
# builds bin/adscheck from checker/ when it is missing or older than its source
here="$(cd "$(dirname "$0")" && pwd)"
b="$here/bin/adscheck"
if [ -x "$b" ] && [ -z "$(find "$here/checker" -maxdepth 1 -newer "$b" -print -quit)" ]; then exit 0; fi
mkdir -p "$here/bin"
go=/opt/veriftools/go1.26.10/bin
[ -x "$go/go" ] || go="$(dirname "$(command -v go1.26 || command -v go)")"
cd "$here/checker" || exit 1
PATH="$go:$PATH" GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o "$b.$$" . && mv -f "$b.$$" "$b"
