#!/bin/bash
# Builds the analyzer once, so that the module and build caches are warm.
set -e
cd "$(dirname "$0")/analyzer"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly
W="$(mktemp -d /tmp/vp-setup.XXXXXX)"
trap 'rm -rf "$W"' EXIT
go build -o "$W/analyzer" .
echo "analyzer builds"
