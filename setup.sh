#!/bin/bash
# Builds the analyser (tool/, vendored dependencies, no network) into bin/.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p bin
cd tool
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/gegov .
