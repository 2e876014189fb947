#!/bin/bash
# Warms Go's build cache for the checks; they build themselves from /repo anyway.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp harness/go.mod harness/go.sum "$tmp/" || exit 1
mkdir -p evidence replays
cd harness && go build -modfile="$tmp/go.mod" -o "$tmp/check" ./cmd/check && go build -race -modfile="$tmp/go.mod" -o "$tmp/check-race" ./cmd/check
