#!/bin/bash
# Build the harness binaries (every check also builds what it needs by itself).
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export REPO_ROOT="${REPO_ROOT:-/repo}"
. "$VERIF_ROOT/env.sh"
for bin in $(all_bins); do
    build_bin "$bin" mc || exit 1
    build_bin "$bin" mcr || exit 1
done
