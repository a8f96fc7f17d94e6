#!/bin/bash
# Builds the checker from the committed sources (offline: the module cache holds golang.org/x/tools).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
[ -n "$HOME" ] || export HOME=/root
go build -o "$here/bin/mediacheck.tmp.$$" .
mv "$here/bin/mediacheck.tmp.$$" "$here/bin/mediacheck"
