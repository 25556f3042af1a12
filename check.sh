#!/bin/bash
# check.sh PROPERTY [harness options]: rebuild from /repo's working tree, then run the property's
# monitored workloads. Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
. "$(dirname "$0")/env.sh"
prop=$1; shift
case $prop in P27|P28) bin=vl ;; *) bin=vh ;; esac
"$VERIF/build.sh" $bin || exit 2
mkdir -p "$VERIF/evidence" "$VERIF/replays"
exec "$BUILD/release/$bin" --prop "$prop" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --out "$VERIF" --wasm "$REPO/target/wasm32-unknown-unknown/release" "$@"
