#!/bin/bash
# Runs the inspection tool on prepared captures
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
CARGO_TARGET_DIR="$t/target" cargo build --offline -q --bin test_parse || exit 4
tool=$t/target/debug/test_parse
cd "$t" || exit 3
printf 'E5\n' > ack.hex
"$tool" ack.hex > /dev/null || exit 5
if "$tool" missing.hex ack.hex > /dev/null 2>&1; then echo "ended successfully"; exit 1; fi
