#!/bin/bash
# usage: build.sh ir|native [cargo feature arguments]   (from /repo's current tree; offline)
# The crate under test is always compiled anew when its sources differ from those last compiled,
# whatever the times of the files say.
set -e
cd "$(dirname "$0")"
kind=$1
shift
mkdir -p target
now="$* "$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
stamp=target/stamp.$kind
if [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
  rm -f $stamp
  if [ $kind = ir ]; then
    cargo clean --offline -q --release -p bvh_anim -p harness 2>/dev/null || true
  else
    cargo clean --offline -q --target-dir target/native -p bvh_anim -p harness 2>/dev/null || true
  fi
fi
case "$kind" in
ir)
  # nothing left of a build from other sources or with other features
  if [ ! -e $stamp ] || [ ! -e target/release/deps/harness.ll ]; then
    rm -rf target/release/deps/harness.ll target/release/.fingerprint/harness-*
  fi
  export RUSTC_BOOTSTRAP=1
  export RUSTFLAGS="-Zinline-mir=no -Cllvm-args=-inline-threshold=-10000 -Cllvm-args=-inlinehint-threshold=-10000 -Cno-vectorize-loops -Cno-vectorize-slp"
  cargo rustc --offline -q --release --lib --crate-type cdylib "$@" -- --emit=llvm-ir --cap-lints=allow
  ls target/release/deps/harness.ll
  ;;
native)
  cargo build --offline -q --features native --bin replay --target-dir target/native "$@"
  ;;
esac
echo "$now" > $stamp
