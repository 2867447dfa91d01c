#!/bin/bash
# tools/check.sh ID: builds the harness from /repo's working tree and runs one check.
cd "$(dirname "$0")/.." || exit 2
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$PWD/tools/rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/build"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p build
exec 9>build/lock
flock 9
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml >build/log 2>&1; then
  tail -40 build/log
  echo "the harness does not build against /repo"
  exit 2
fi

# A second build, with a sanitizer, on the nightly toolchain. When that toolchain cannot build it
# the check goes on without: the plain run decides.
san() { # kind, extra cargo arguments
  local kind=$1 target=x86_64-unknown-linux-gnu; shift
  if RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=${kind}" CARGO_TARGET_DIR="$PWD/build/$kind" \
     timeout 300 cargo build --offline --locked --manifest-path harness/Cargo.toml --target $target "$@" >build/log-$kind 2>&1
  then
    export VERIF_SAN_BIN="$PWD/build/$kind/$target/debug/harness"
    case $kind in address) export VERIF_SAN_KIND=asan ;; *) export VERIF_SAN_KIND=tsan ;; esac
  else
    echo "no $kind sanitizer build: $(tail -1 build/log-$kind)"
  fi
}
case "$1" in
C01) san address ;;
C21) san thread -Zbuild-std ;;
esac
flock -u 9
exec 9>&-
[ "$1" = setup ] && exit 0
exec build/debug/harness check "$1"
