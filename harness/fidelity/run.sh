#!/bin/bash
# Fidelity of the stand-ins: runs the repository's own unit tests of both
# programs (which its test build here cannot compile) against the stand-in for
# `decimal`, with a small stand-in for `proptest`. No check depends on it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
cp -a "$here/proptest" "$work/proptest"
mkdir "$work/.cargo"
cat > "$work/.cargo/config.toml" <<C
[source."git+https://github.com/aldrin-exchange/solana-decimal?tag=0.4.0"]
git = "https://github.com/aldrin-exchange/solana-decimal"
tag = "0.4.0"
replace-with = "local-decimal"
[source.local-decimal]
directory = "$here/../vendor"
C
for p in farming amm; do
    cp -a "/repo/programs/$p" "$work/$p"
    cp "$here/$p.lock" "$work/$p/Cargo.lock"
    # the manifest without the dev-dependencies which are not available
    cp "$here/$p.toml" "$work/$p/Cargo.toml"
    rm -rf -- "$work/$p/tests" "$work/$p/benches"
    (cd "$work/$p" && CARGO_TARGET_DIR="$work/target" cargo test --offline --lib 2>&1 | grep -E "^test result|FAILED|^error" )
done
