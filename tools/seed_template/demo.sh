#!/bin/bash
# Plays main.rs against the programs in /repo. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
. /opt/vp/env.sh
mkdir -p "$scratch/demo/src" "$scratch/demo/.cargo" "$scratch/vendor"
cp "$here"/kit/{bank,abi,world}.rs "$here"/main.rs "$scratch/demo/src/" || exit 2
cp "$here"/kit/Cargo.toml "$here"/kit/Cargo.lock "$scratch/demo/" || exit 2
cp "$here"/kit/config.toml "$scratch/demo/.cargo/" || exit 2
cp -r "$here"/kit/decimal "$scratch/vendor/" || exit 2
export CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}" RUST_BACKTRACE=0
cd "$scratch/demo" || exit 2
cargo build --offline --locked -q 2>"$scratch/log" || { tail -n 40 "$scratch/log"; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
