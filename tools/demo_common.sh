#!/bin/bash
# Builds the repository's "common" crate (the way the repository's own build does) with demo.rs as a test.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/common.sh
T="$(mktemp -d)"; trap 'rm -r -- "$T"' EXIT
WS="$T/ws"; mkdir -p "$WS"
grep -vE '^[[:space:]]*"src/(events-gen|metadata|platform|query|storage|ingester|cmd)",?[[:space:]]*$' Cargo.toml > "$WS/Cargo.toml"
cp /opt/vp/common.Cargo.lock "$WS/Cargo.lock"
/opt/vp/bin/trim copy "$PWD/src/common" "$WS/src/common" arrow2 || exit 99
mkdir -p "$WS/src/common/tests"; cp "$here/demo.rs" "$WS/src/common/tests/demo.rs"
cd "$WS" && cargo test -p common --test demo --offline
