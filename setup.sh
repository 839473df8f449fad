#!/bin/bash
# Builds the framework from the committed files, offline.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
unset RUSTFLAGS CARGO_TARGET_DIR
for c in conc seq; do
  [ -d "$c" ] && (cd "$c" && cargo build --release --offline --locked)
done
(cd conc && cargo build --release --offline --locked --features plain --target-dir target/plain)
conc/target/release/conc selftest
