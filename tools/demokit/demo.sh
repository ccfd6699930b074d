#!/bin/bash
# Builds bfffs-core from /repo on a simulated runtime (kit.tgz), and runs the
# demonstration in main.rs there.  Nothing is written outside a scratch directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
tar xzf "$here/kit.tgz" -C "$T" || exit 2
cp "$here/main.rs" "$T/demo/src/main.rs"
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" DEMO_SCRATCH="$T/scratch"
mkdir "$T/scratch"
cargo build --offline >"$T/log" 2>&1 || { tail -40 "$T/log"; exit 3; }
timeout 120 "$T/target/debug/demo"
