#!/bin/sh
# Compile each program beside this script and compare its hardware with the expected values.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$D/sim" "$T/sim"
(cd "$T/sim" && CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet) || exit 3
for p in "$D"/*.spade; do
    b=$(basename "$p" .spade)
    (cd "$T" && /repo/target/debug/spade "$p" -o "$T/$b.sv" $(cat "$D/$b.opts" 2>/dev/null)) || { echo "$b: not compiled"; exit 1; }
    "$T/target/debug/vdemo" "$T/$b.sv" "$D/$b.stim" || exit 1
done
