#!/bin/bash
# check.sh ID          decide one property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE play the history of a violation again
# check.sh build       only build
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF_ROOT/.target" CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
# the programs come from /repo's working tree, through path dependencies
log=$(mktemp)
if ! (cd harness/mon && cargo build --release --locked --offline) >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "inconclusive: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay) exec .target/release/mon replay "$2" ;;
    *) exec .target/release/mon check "$1" ;;
esac
