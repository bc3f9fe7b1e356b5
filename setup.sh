#!/bin/bash
# Builds everything the checks need, offline, from /repo's working tree.
cd "$(dirname "$0")" || exit 1
. ./env.sh
start_from_prebuilt
bash ./prepare.sh || exit 1
cd ws && cargo build --offline --workspace --bins 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
