#!/bin/bash
# Builds the verifier from the committed sources (offline).
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$HERE/bin"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$HERE/gocv"
GOFLAGS=-mod=mod GOPROXY=off go build -o "$HERE/bin/gocv" .
echo "setup ok"
