#!/bin/bash
# miri.sh TRIPLE FEATURES: worker under Miri, requests on stdin. tools/build.py has compiled it.
cd "$(dirname "$0")/variant" || exit 2
B=$(realpath ../../build)
export MIRI_SYSROOT=$B/miri-sysroot CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC_WRAPPER
case "$1" in
  s390x*) T=$B/t/miri-s390x; export RUSTFLAGS= ;;
  *) T=$B/t/miri-x86; export RUSTFLAGS=-Ctarget-feature=+avx2 ;;
esac
M="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
case "$1" in s390x*) M="$M -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check" ;; esac
export MIRIFLAGS="$M"
exec cargo +nightly miri run -q --offline --target "$1" --target-dir "$T" --bin worker --features "$2"
