#!/bin/bash
# builds the framework from the committed files, offline
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
(cd extractor && cargo build --offline --release -q) || exit 1
# the driver depends on /repo's crate and is rebuilt by every check; build it once here to warm the cache
(cd driver && cargo build --offline -q)
exit 0
