#!/bin/bash
# Builds the machinery once, offline.
set -eu
ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target"
mkdir -p "$ROOT/target" "$ROOT/evidence"
cd "$ROOT/harness" && cargo build --offline -q
cd "$ROOT/sim" && cargo build --offline -q
