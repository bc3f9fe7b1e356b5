export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export VERIF_DIR=/verif
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
# A fresh target folder starts as a copy of what /opt/vp/build.sh built: the checks use the same dependencies at the same versions,
# features and profile, so cargo finds them fresh. Without it, or where they differ, cargo builds them itself: slower, and the same.
start_from_prebuilt() {
  [ -e "$CARGO_TARGET_DIR/debug" ] && return 0
  mkdir -p "$CARGO_TARGET_DIR" || return 1
  [ -d /opt/vp/target/debug/build ] || return 0
  mkdir "$CARGO_TARGET_DIR/debug" && cp -a /opt/vp/target/debug/build "$CARGO_TARGET_DIR/debug/"
  rm -rf "$CARGO_TARGET_DIR/debug/build/common"
  return 0
}
