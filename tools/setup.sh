#!/bin/bash
# Builds the extractor and the search harness; every check builds them again when they are missing.
cd "$(dirname "$0")/.." || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --release --offline) || exit 1
(cd harness && RUSTFLAGS="--cfg cathlamet_verif -Awarnings" cargo build --offline --bins)
exit 0
