#!/bin/bash
# run.sh PROPERTY [args]: build the harness for PROPERTY from /repo's working tree, and run it.
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export REPO_ROOT="${REPO_ROOT:-/repo}"
. "$VERIF_ROOT/env.sh"
P="$1"
TIER="${VERIF_TIER:-quick}"
bin=$(bin_of "$P") || { echo "unknown property $P" >&2; exit 2; }
build_all() { # PROFILE
    build_bin "$bin" "$1" || return 1
    case "$P" in
        U07) build_bin mc-normal "$1" ;;
        G0?) build_bin mc-unicgen "$1" ;;
        A01) build_bin unic-cli "$1" ;;
    esac
}
pass() { # PROFILE [args]: with debug assertions and overflow checks (mc), or as users ship it (mcr)
    build_all "$1" || { echo "harness build failed" >&2; return 2; }
    # A quick check ends within 13 minutes even where it is slow: it says then that it did not explore all.
    if [ "${TIER:-quick}" = quick ] && [ -z "${MC_BUDGET_S:-}" ]; then
        local left=$(( (${LAST:-520}) - SECONDS ))
        local -x MC_BUDGET_S=$(( left > 30 ? left : 30 ))
    fi
    (ulimit -v $((24*1024*1024)) 2>/dev/null; exec "$CARGO_TARGET_DIR/$1/$bin" "${@:2}")
}
if [ "${MC_PASS:-}" = release ]; then
    pass mcr "$@"
    exit
fi
pass mc "$@" || exit
[ $# = 1 ] || exit 0
export MC_PASS=release VERIF_TIER=quick
LAST=780
pass mcr "$@"
