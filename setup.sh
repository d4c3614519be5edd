#!/bin/bash
# Builds the monitors once; every check rebuilds what changed in /repo by itself.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p evidence replays
cargo build --offline --release --manifest-path mon/Cargo.toml || exit
cargo build --offline --profile checked --manifest-path mon/Cargo.toml || exit
exec python3 tools/san.py build
