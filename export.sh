#!/bin/bash
# export.sh OUT.json : type-check /repo's working tree with the MIR exporter as compiler driver.
set -e
OUT="$1"; REPO="${REPO:-/repo}"
HERE="$(cd "$(dirname "$0")" && pwd)"
[ "$HERE/mirx/target/release/mirx" -nt "$HERE/mirx/src/main.rs" ] || (cd "$HERE/mirx" && cargo +nightly build --release --offline -q && touch target/release/mirx)
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib:$LD_LIBRARY_PATH"
T="${TARGET:-$HERE/target/export}"
mkdir -p "$T"
exec 9>"$T/lock"; flock 9
# cargo's freshness cache would skip the wrapper: drop the fingerprint of the analysed crate only
find "$T" -maxdepth 4 -type d \( -path '*/.fingerprint/amqp-codec-*' -o -path '*/build/amqp-codec' -o -path '*/build/amqp-codec-*' -o -path '*/incremental/amqp_codec-*' \) -prune -exec rm -rf {} + 2>/dev/null || true
TMPO="$(mktemp "$T/out.XXXXXX")"; rm -f "$TMPO"
cd "$REPO"
CARGO_TARGET_DIR="$T" RUSTC_WORKSPACE_WRAPPER="$HERE/mirx/target/release/mirx" MIRX_OUT="$TMPO" MIRX_CRATE=amqp_codec \
 RUSTFLAGS="-Zmir-opt-level=0 -Zinline-mir=no -Coverflow-checks=on -Zub-checks=no -Cdebug-assertions=on --cap-lints=warn" \
 cargo +nightly check --offline --lib -q >"$T/log" 2>&1 || { tail -n 40 "$T/log" >&2; exit 3; }
[ -s "$TMPO" ] || { echo "export produced nothing" >&2; tail -n 40 "$T/log" >&2; exit 3; }
mv "$TMPO" "$OUT"
