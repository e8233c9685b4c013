#!/bin/bash
# check.sh <ID> quick|thorough     run one property's check against /repo's current tree
# check.sh <ID> replay <FILE>      re-run one recorded case
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; MODE="${2:-quick}"
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$ROOT/target"
LOG="$ROOT/target/build-$ID.log"
mkdir -p "$ROOT/target"
if ! (cd "$ROOT/harness" && cargo build --offline -q) >"$LOG" 2>&1; then
    tail -n 60 "$LOG" >&2
    echo "check.sh: the harness does not build against /repo's current tree" >&2
    exit 2
fi
if [ "$ID" = C24 ] || [ "$ID" = C26 ] || [ "$ID" = C27 ] || [ "$ID" = C34 ]; then
    # The programs made by the one-line set-up: their compilation is part of the property.
    SIMLOG="$ROOT/target/build-sim.log"
    if ! (cd "$ROOT/sim" && cargo build --offline -q) >"$SIMLOG" 2>&1; then
        if grep -q 'could not compile `vsim`' "$SIMLOG"; then
            export VSIM_BUILD_FAILED="$SIMLOG"
        else
            tail -n 60 "$SIMLOG" >&2
            echo "check.sh: the programs do not build" >&2
            exit 2
        fi
    fi
fi
BIN="$ROOT/target/debug/vharness"
case "$MODE" in
    replay) exec "$BIN" check "$ID" --replay "$3" ;;
    quick|thorough) exec "$BIN" check "$ID" --tier "$MODE" ;;
    *) echo "usage: check.sh <ID> quick|thorough|replay FILE" >&2; exit 2 ;;
esac
