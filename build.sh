#!/bin/bash
# build.sh: builds the simulator against /repo's working tree; prints the path of the binary.
# First with the hook (--cfg rustnomial_sim), else without it (properties that need the simulated
# coefficient type then explore with built-in numbers only, and the evidence says so).
cd "$(dirname "$(realpath "$0")")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
if RUSTFLAGS="--cfg rustnomial_sim -Awarnings" cargo +nightly build --release --offline --locked --features hooked \
    --target-dir target >"$log" 2>&1; then
    echo "$PWD/target/release/rsim"
    exit 0
fi
if RUSTFLAGS="-Awarnings" cargo +nightly build --release --offline --locked --target-dir target-nohook >"$log.2" 2>&1; then
    echo "the hooked build failed; going on without the simulated coefficient type:" >&2
    grep -m3 -A6 '^error' "$log" >&2
    rm -f "$log.2"
    echo "$PWD/target-nohook/release/rsim"
    exit 0
fi
tail -n 40 "$log" >&2
rm -f "$log.2"
exit 2
