#!/bin/bash
# builds the exporter and warms the dependency cache
set -e
cd "$(dirname "$0")"
(cd mirx && cargo +nightly build --release --offline -q && touch target/release/mirx)
t="$(mktemp)"
bash export.sh "$t"
rm -f "$t"
