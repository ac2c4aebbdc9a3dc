#!/bin/bash
# builds the extractor and the harness (each check does the same when they are missing)
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd vx && cargo build --release --offline -q) || exit 1
(cd replay && cargo build --offline -q) || exit 1
exit 0
