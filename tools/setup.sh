#!/bin/sh
# Builds the harness (compiler + Verilog interpreter) and the command line compiler from /repo's working tree, offline.
cd "$(dirname "$0")/../harness" && CARGO_TARGET_DIR="$PWD/../build/target" exec cargo build --offline --quiet -p vharness -p spade-lang
