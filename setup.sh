#!/bin/bash
# Warms the Go build cache by building the harness once.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
. "$VERIF/build.sh"
mkdir -p "$VERIF/evidence"
build_harness || { echo "harness build failed"; exit 1; }
echo ready
