#!/bin/bash
# usage: check.sh <property> <quick|thorough>   |   check.sh --replay <file>   |   check.sh --build
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/mc/target" CARGO_INCREMENTAL=0
export RUSTFLAGS='--cfg getrandom_backend="linux_getrandom" -Awarnings'
unset CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
mkdir -p "$here/mc/nexo/dashboard/dist" "$here/evidence"
cd "$here/mc" || exit 2
bin_of() { case "$1" in S*) echo h_store;; P*) echo h_pubsub;; Q*) echo h_queue;; T*) echo h_stream;; *) echo h_wire;; esac; }
build() { cargo build --offline "$@" 2>"$here/mc/build.log" || { grep -A12 -E '^error' "$here/mc/build.log" | head -80 >&2; tail -3 "$here/mc/build.log" >&2; echo "BUILD FAILED" >&2; exit 2; }; }
client() { export PATH="$PATH:/opt/veriftools/node/bin"; exec node --no-warnings "$here/mc/client/run.js" "$@"; }
case "$1" in
  C*) client check "$1" "${2:-quick}" $3;;
  --build) build --bins; exit 0;;
  --setup) cargo metadata --offline --format-version 1 >/dev/null || exit 2; echo ready; exit 0;;
  --replay) id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2; case "$id" in C*) client replay "$2";; esac; b=$(bin_of "$id"); build --bin "$b"; exec "$CARGO_TARGET_DIR/debug/$b" replay "$2";;
  *) b=$(bin_of "$1"); build --bin "$b"; exec "$CARGO_TARGET_DIR/debug/$b" check "$1" "${2:-quick}" $3;;
esac
