#!/bin/bash
# builds the extractor and the executable contracts (offline)
set -e
cd "$(dirname "$0")"
(cd vx && CARGO_TARGET_DIR=../target/vx cargo build --release --offline)
(cd harness && CARGO_TARGET_DIR=../target/vh cargo build --offline)
