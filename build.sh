#!/bin/bash
# Rebuilds, offline and incrementally, the release wasm of every contract from /repo's working tree
# (in the repository's own git-ignored target folder) and the harness that runs them.
# build.sh [vh|vl]: only the contracts' or only the libraries' harness. Exit 2 when something does not build.
. "$(dirname "$0")/env.sh"
BINS=${1:+--bin $1}
set -o pipefail
mkdir -p "$BUILD"
exec 9>"$BUILD/lock"
flock 9
LOG=$BUILD/build.log
: > "$LOG"

cd "$REPO" || exit 2
WASM=target/wasm32-unknown-unknown/release
STAMPS=target/vp-stamps
mkdir -p $STAMPS

# Cargo does not see that a crate depends on the wasm files it imports (contractimport!): when
# those change, drop its fingerprint so that it is rebuilt. Same stamps as /opt/vp/build.sh uses.
wasm() {
    local dir=$1 pkg=$2; shift 2
    local stamp=$STAMPS/wasm-$pkg sums
    sums=$( { grep -rhoE --exclude-dir=tests --exclude=tests.rs '[a-z0-9_]+\.wasm' "contracts/$dir/src" || true; } | sort -u |
        while read -r w; do sha256sum "$WASM/$w" 2>&1 || true; done)
    if [ "$sums" != "$(cat "$stamp" 2>/dev/null)" ]; then
        rm -rf "$REPO/$WASM/.fingerprint/$pkg"-???????????????? "$REPO/$stamp"
    fi
    CARGO_INCREMENTAL=0 cargo build --offline --locked --release \
        --target wasm32-unknown-unknown -p "$pkg" "$@" >>"$LOG" 2>&1 || return 1
    printf '%s\n' "$sums" > "$stamp"
}

[ "$1" = vl ] || {
wasm token soroban-token-contract &&
wasm stake_rewards phoenix-stake-rewards &&
wasm stake phoenix-stake &&
wasm pool phoenix-pool &&
wasm pool_stable phoenix-pool-stable &&
wasm factory phoenix-factory &&
wasm multihop phoenix-multihop &&
wasm trader phoenix-trader &&
wasm vesting phoenix-vesting --all-features || {
    tail -40 "$LOG" >&2; echo "the contracts do not build" >&2; exit 2; }
}

cd "$VERIF/harness" || exit 2
RUSTFLAGS="--cfg phoenix_verif" CARGO_TARGET_DIR=$BUILD cargo build --offline --locked --release $BINS >>"$LOG" 2>&1 || {
    tail -40 "$LOG" >&2; echo "the harness does not build" >&2; exit 2; }
exit 0
