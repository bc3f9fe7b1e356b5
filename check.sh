#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds what the check needs from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 3
. ./env.sh
id="$1"; export VERIF_TIER="${2:-quick}"
case "$id" in
  T*|X*) pkg=c_common ;;
  M*) pkg=c_metadata ;;
  I*) pkg=c_ingester ;;
  S*) pkg=c_storage ;;
  Q*) pkg=c_query ;;
  P*) pkg=c_platform ;;
  *) echo "unknown property $id"; exit 3 ;;
esac
start_from_prebuilt
bash ./prepare.sh || exit 3
mkdir -p target
if ! (cd ws && cargo build --offline -p "$pkg") > "target/build-$id.log" 2>&1; then
  tail -40 "target/build-$id.log"; echo "check $id: the build failed"; exit 3
fi
exec "target/debug/$pkg" "$id"
