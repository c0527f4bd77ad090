#!/bin/bash
# check.sh setup                      build the engine against /repo's working tree
# check.sh <ID> [quick|thorough]      decide one property
# check.sh replay <ID> <FILE>         run one recorded input on the real code (exit 1: it violates the property)
cd "$(dirname "$0")" || exit 2
export LSV_DIR="$PWD"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="--cap-lints allow" RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_INCREMENTAL
build() {
  mkdir -p target
  # the source is identified by content, not by time stamps
  local now; now=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$LSV_DIR" && find engine/src engine/Cargo.toml models -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
  exec 9>target/.lsv-lock; flock 9
  if [ "$now" != "$(cat target/.lsv-stamp 2>/dev/null)" ] || [ ! -x target/release/lsverify ]; then
    if [ -f target/.lsv-stamp ]; then
      (cd engine && cargo clean --release --offline -p linestring -p lsverify >/dev/null 2>&1)
    fi
    rm -f "$PWD/target/.lsv-stamp"
    if ! (cd engine && cargo build --release --offline >../target/build.log 2>&1); then
      tail -40 target/build.log; echo "BUILD FAILED"; exit 2
    fi
    echo "$now" >target/.lsv-stamp
  fi
  flock -u 9
}
case "$1" in
  setup) build; exit 0 ;;
  replay) build; exec target/release/lsverify replay "$2" "$3" ;;
  *) build; exec target/release/lsverify check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
